package healer

// Produce v0 and v9: 0..2 topics (name 0..1 bytes) with 0..2 partitions, every field any value;
// v9: 0..1 record errors with null/0..1 byte messages, error message null/0..1 bytes, tag
// buffers of 0..1 fields in one of the five places.
func VP_C04_produce() {
	v := []uint16{9, 0}[vpChoose("ver", 2)]
	flex := v >= 9
	corr := vpU32("corr")
	w := &vpW{}
	tagAt := -1
	var tg TaggedFields
	if flex {
		tagAt = vpChoose("tagat", 5)
		tg = vpTags("tags", 1)
	}
	at := func(k int) TaggedFields {
		if k == tagAt {
			return tg
		}
		return nil
	}
	w.respHeader(corr, flex, at(0))
	nt := vpN("topics", 2)
	w.arr(flex, nt)
	want := make([]produceResponseT, nt)
	for i := range want {
		t := &want[i]
		t.Topic = vpS("topic", 1)
		w.str(flex, t.Topic)
		np := vpN("parts", 2)
		w.arr(flex, np)
		t.Partitions = make([]produceResponseP, np)
		for j := range t.Partitions {
			p := &t.Partitions[j]
			p.PartitionID, p.ErrorCode, p.BaseOffset = vpID("pid"), vpI16("err"), vpI64("base")
			w.i32(p.PartitionID)
			w.i16(p.ErrorCode)
			w.i64(p.BaseOffset)
			if v >= 2 {
				p.LogAppendTimeMs = vpI64("append")
				w.i64(p.LogAppendTimeMs)
			}
			if v >= 5 {
				p.LogStartOffset = vpI64("start")
				w.i64(p.LogStartOffset)
			}
			if v >= 8 {
				ne := 0
				if i == 0 {
					ne = vpN("recerr", 1)
				}
				w.arr(flex, ne)
				p.RecordErrors = make([]produceResponseRecordErrors, ne)
				for k := range p.RecordErrors {
					p.RecordErrors[k].BatchIndex = vpI32("bidx")
					p.RecordErrors[k].BatchIndexErrorMessage = vpNS("bmsg", 1)
					w.i32(p.RecordErrors[k].BatchIndex)
					w.nstr(flex, p.RecordErrors[k].BatchIndexErrorMessage)
					w.tags(flex, at(1))
				}
				if i == 0 && j == 0 {
					p.ErrorMessage = vpNS("emsg", 1)
				}
				w.nstr(flex, p.ErrorMessage)
			}
			w.tags(flex, at(2))
		}
		w.tags(flex, at(3))
	}
	var throttle int32
	if v >= 1 {
		throttle = vpI32("throttle")
		w.i32(throttle)
	}
	w.tags(flex, at(4))
	vpDecode("Produce", func() {
		r, err := NewProduceResponse(vpFrame(w.b), v)
		vpDecOK("Produce", err)
		vpAssert(r.CorrelationID == corr, "Produce response correlation id")
		vpAssert(len(r.ProduceResponses) == nt, "Produce response topic count")
		vpAssert(r.ThrottleTimeMs == throttle, "Produce response throttle time")
		for i := range want {
			t, g := &want[i], &r.ProduceResponses[i]
			vpAssert(g.Topic == t.Topic, "Produce response topic")
			vpAssert(len(g.Partitions) == len(t.Partitions), "Produce response partition count")
			for j := range t.Partitions {
				a, b := &t.Partitions[j], &g.Partitions[j]
				vpAssert(a.PartitionID == b.PartitionID, "Produce response partition id")
				vpAssert(a.ErrorCode == b.ErrorCode, "Produce response error code")
				vpAssert(a.BaseOffset == b.BaseOffset, "Produce response base offset")
				vpAssert(a.LogAppendTimeMs == b.LogAppendTimeMs, "Produce response log append time")
				vpAssert(a.LogStartOffset == b.LogStartOffset, "Produce response log start offset")
				vpAssert(vpPtrEq(a.ErrorMessage, b.ErrorMessage), "Produce response error message")
				vpAssert(len(a.RecordErrors) == len(b.RecordErrors), "Produce response record error count")
				for k := range a.RecordErrors {
					vpAssert(a.RecordErrors[k].BatchIndex == b.RecordErrors[k].BatchIndex, "Produce response record error index")
					vpAssert(vpPtrEq(a.RecordErrors[k].BatchIndexErrorMessage, b.RecordErrors[k].BatchIndexErrorMessage), "Produce response record error message")
				}
			}
		}
	})
	vpReach("end")
}
