package healer

// ListOffsets v0 and v1: 0..2 distinct topics of 1 byte with 0..2 partitions, any values;
// v0 with 0..2 offsets per partition.
func VP_C04_list_offsets() {
	v := uint16(vpChoose("ver", 2))
	corr := vpU32("corr")
	w := &vpW{}
	w.u32(corr)
	nt := vpN("topics", 2)
	w.arr(false, nt)
	names := make([]string, nt)
	want := make([][]PartitionOffset, nt)
	for i := range names {
		names[i] = vpS1("topic", 1)
		if i > 0 {
			vpAssume(names[0] != names[1])
		}
		w.str(false, names[i])
		np := vpN("parts", 2)
		w.arr(false, np)
		want[i] = make([]PartitionOffset, np)
		for j := range want[i] {
			p := &want[i][j]
			p.Partition, p.ErrorCode = vpID("pid"), vpI16("err")
			w.i32(p.Partition)
			w.i16(p.ErrorCode)
			if v == 0 {
				n := vpN("offs", 2)
				w.arr(false, n)
				for k := 0; k < n; k++ {
					x := vpI64("off")
					p.OldStyleOffsets = append(p.OldStyleOffsets, x)
					w.i64(x)
				}
			} else {
				p.Timestamp, p.Offset = vpI64("ts"), vpI64("off")
				w.i64(p.Timestamp)
				w.i64(p.Offset)
			}
		}
	}
	vpDecode("ListOffsets", func() {
		r, err := NewOffsetsResponse(vpFrame(w.b), v)
		vpDecOK("ListOffsets", err)
		vpAssert(r.CorrelationID == corr, "ListOffsets response correlation id")
		vpAssert(r.ThrottleTimeMs == 0, "ListOffsets v0/v1 responses carry no throttle time")
		vpAssert(len(r.TopicPartitionOffsets) == nt, "ListOffsets response topic count")
		for i := range names {
			g, ok := r.TopicPartitionOffsets[names[i]]
			vpAssert(ok && len(g) == len(want[i]), "ListOffsets response topic")
			for j := range want[i] {
				a, b := &want[i][j], &g[j]
				vpAssert(a.Partition == b.Partition && a.ErrorCode == b.ErrorCode && a.Timestamp == b.Timestamp && a.Offset == b.Offset && vpI64sEq(a.OldStyleOffsets, b.OldStyleOffsets), "ListOffsets response partition")
				if len(a.OldStyleOffsets) == 1 {
					vpAssert(b.GetOffset() == a.OldStyleOffsets[0], "ListOffsets v0 offset")
				} else if v == 1 {
					vpAssert(b.GetOffset() == a.Offset, "ListOffsets v1 offset")
				}
			}
		}
	})
	vpReach("end")
}

// OffsetCommit (v0..v2, one response layout) and OffsetFetch (v0, v1): 0..2 topics of 0..1
// bytes with 0..2 partitions, any values, metadata null/0..1 bytes.
func VP_C04_offset_commit_fetch() {
	corr := vpU32("corr")
	fetch := vpChoose("api", 2) == 1
	w := &vpW{}
	w.u32(corr)
	nt := vpN("topics", 2)
	w.arr(false, nt)
	names := make([]string, nt)
	type part struct {
		pid  int32
		off  int64
		meta *string
		err  int16
	}
	want := make([][]part, nt)
	var first int16
	for i := range names {
		names[i] = vpS("topic", 1)
		w.str(false, names[i])
		want[i] = make([]part, vpN("parts", 2))
		w.arr(false, len(want[i]))
		for j := range want[i] {
			p := &want[i][j]
			p.pid, p.err = vpID("pid"), vpI16("err")
			w.i32(p.pid)
			if fetch {
				p.off, p.meta = vpI64("off"), vpNS("meta", 1)
				w.i64(p.off)
				w.nstr(false, p.meta)
			}
			w.i16(p.err)
			if first == 0 {
				first = p.err
			}
		}
	}
	data := vpFrame(w.b)
	if !fetch {
		vpDecode("OffsetCommit", func() {
			r, err := NewOffsetCommitResponse(data)
			vpAssert((err == nil) == (first == 0), "OffsetCommit decoding reports exactly the error codes of the response")
			vpAssert(r.CorrelationID == corr && len(r.Topics) == nt, "OffsetCommit response")
			for i := range names {
				vpAssert(r.Topics[i].Topic == names[i] && len(r.Topics[i].Partitions) == len(want[i]), "OffsetCommit response topic")
				for j, p := range want[i] {
					g := r.Topics[i].Partitions[j]
					vpAssert(int32(g.PartitionID) == p.pid && g.ErrorCode == p.err, "OffsetCommit response partition")
				}
			}
		})
	} else {
		vpDecode("OffsetFetch", func() {
			r, err := NewOffsetFetchResponse(data)
			vpAssert((err == nil) == (first == 0), "OffsetFetch decoding reports exactly the error codes of the response")
			vpAssert(r.CorrelationID == corr && len(r.Topics) == nt, "OffsetFetch response")
			for i := range names {
				vpAssert(r.Topics[i].Topic == names[i] && len(r.Topics[i].Partitions) == len(want[i]), "OffsetFetch response topic")
				for j, p := range want[i] {
					g := r.Topics[i].Partitions[j]
					vpAssert(g.PartitionID == p.pid && g.ErrorCode == p.err && g.Offset == p.off && vpStrEqN(g.Metadata, p.meta), "OffsetFetch response partition")
				}
			}
		})
	}
	vpReach("end")
}
