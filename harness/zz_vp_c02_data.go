package healer

// Request header: every API key 0..46 healer knows, any version 0..15, any
// correlation id, client id null or 0..2 bytes; EncodeTo, WriteTo and decoding agree
// with header v1/v2 of the protocol. A header that is reused with another version
// follows the new version.
func VP_C02_header() {
	key := vpChoose("key", 47)
	if key == 7 {
		vpAssume(false) // ControlledShutdown has a non-standard header and healer never sends it
	}
	v := uint16(vpInt("ver", 0, 15))
	corr := vpU32("corr")
	client := vpNS("client", 2)
	h := &RequestHeader{APIKey: uint16(key), ClientID: client}
	if vpChoose("reuse", 2) == 1 {
		h.SetVersion(0)
		b := make([]byte, 20000)
		h.EncodeTo(b)
	}
	h.SetVersion(v)
	h.SetCorrelationID(corr)
	ff := vpFlexFrom(key)
	flex := ff >= 0 && int(v) >= ff
	w := &vpW{}
	w.reqHeader(uint16(key), v, corr, client, flex)
	b := make([]byte, 20000)
	n := h.EncodeTo(b)
	vpAssert(n == len(w.b), "request header length")
	vpAssert(vpEqBytes(b[:len(w.b)], w.b), "request header bytes")
	bw := &vpBuf{}
	k, err := h.WriteTo(bw)
	vpAssert(err == nil && int(k) == len(w.b), "request header writer reports its length")
	vpAssert(vpEqBytes(bw.b, w.b), "request header written bytes")
	d, o := DecodeRequestHeader(append(append([]byte{}, w.b...), vpBytes("junk", 1)...))
	vpAssert(o == len(w.b), "request header decoding consumes the header")
	vpAssert(d.APIKey == uint16(key) && d.APIVersion == v && d.CorrelationID == corr && vpPtrEq(d.ClientID, client), "request header decodes to what was encoded")
	vpReach("end")
}

// Produce v0 and v9: transactional id null/0..1 bytes, any acks and timeout, 0..2 topics
// of 0..1 bytes with 0..2 partitions of any id, each with 0..1 record batches of one record
// (record bytes themselves are property C07's).
func VP_C02_produce() {
	v := []uint16{9, 0}[vpChoose("ver", 2)]
	flex := v >= 9
	client := vpS("client", 1)
	r := &ProduceRequest{RequestHeader: &RequestHeader{APIKey: API_ProduceRequest, ClientID: &client}}
	r.RequiredAcks = vpI16("acks")
	r.Timeout = vpI32("timeout")
	if v >= 3 {
		r.transactionalID = vpNS("txn", 1)
	}
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(0, v, corr, &client, flex)
	if v >= 3 {
		w.nstr(flex, r.transactionalID)
	}
	w.i16(r.RequiredAcks)
	w.i32(r.Timeout)
	nt := vpN("topics", 2)
	w.arr(flex, nt)
	for i := 0; i < nt; i++ {
		t := produceRequestT{TopicName: vpS("topic", 1)}
		w.str(flex, t.TopicName)
		np := vpN("parts", 2)
		w.arr(flex, np)
		for j := 0; j < np; j++ {
			p := produceRequestP{Partition: vpID("pid")}
			w.i32(p.Partition)
			var recs []byte
			if vpElem("batch", 2) == 1 {
				rb := RecordBatch{Magic: 2, Records: []*Record{{value: vpBytes("val", 1)}}}
				b, err := rb.Encode(v)
				vpAssert(err == nil, "record batch encodes")
				recs = b
				p.RecordBatches = []RecordBatch{rb}
			}
			w.bytes(flex, recs)
			w.tags(flex, nil)
			t.PartitonBlocks = append(t.PartitonBlocks, p)
		}
		w.tags(flex, nil)
		r.TopicBlocks = append(r.TopicBlocks, t)
	}
	w.tags(flex, nil)
	vpChkReq("Produce", vpEnc(r, corr, v), w)
	vpReach("end")
}

// Fetch v0, v7, v10: one topic of 1..2 bytes with 0..4 partitions, any field values;
// 0..1 forgotten topics with 0..2 partitions.
func VP_C02_fetch() {
	v := []uint16{10, 7, 0}[vpChoose("ver", 3)]
	client := vpS("client", 1)
	r := NewFetchRequest(client, vpI32("wait"), vpI32("minbytes"))
	topic := vpS1("topic", 2)
	np := vpN("parts", 4)
	r.SessionID = vpI32("sid")
	r.SessionEpoch = vpI32("sepoch")
	r.ISOLationLevel = vpI8("iso")
	var maxb int32
	w2 := &vpW{}
	for i := 0; i < np; i++ {
		pid, fo, mb, le := vpID("pid"), vpI64("off"), vpI32("maxbytes"), vpI32("epoch")
		r.addPartition(topic, pid, fo, mb, le)
		maxb += mb
		w2.i32(pid)
		if v >= 9 {
			w2.i32(le)
		}
		w2.i64(fo)
		if v >= 5 {
			w2.i64(0) // log start offset: consumers send 0... any value is accepted by brokers
		}
		w2.i32(mb)
	}
	nf := 0
	ft := ""
	var fp []int32
	if v >= 7 {
		nf = vpChoose("forgotten", 2)
	}
	if nf > 0 {
		ft = vpS1("ftopic", 1)
		fp = vpI32s("fpart", 2)
		r.ForgottenTopicsDatas[ft] = fp
	}
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(1, v, corr, &client, false)
	w.i32(-1)
	w.i32(r.MaxWaitTime)
	w.i32(r.MinBytes)
	if v >= 3 {
		w.i32(maxb)
	}
	if v >= 4 {
		w.i8(r.ISOLationLevel)
	}
	if v >= 7 {
		w.i32(r.SessionID)
		w.i32(r.SessionEpoch)
	}
	if np == 0 {
		w.arr(false, 0)
	} else {
		w.arr(false, 1)
		w.str(false, topic)
		w.arr(false, np)
		w.raw(w2.b)
	}
	if v >= 7 {
		w.arr(false, nf)
		if nf > 0 {
			w.str(false, ft)
			w.i32s(false, fp)
		}
	}
	vpNoPanic("encoding a Fetch request", func() {
		vpChkReq("Fetch", vpEnc(r, corr, v), w)
	})
	vpReach("end")
}

// Fetch with two topics (any order of the map): each topic's block is complete.
func VP_C02_fetch_two_topics() {
	v := []uint16{10, 7, 0}[vpChoose("ver", 3)]
	client := "c"
	r := NewFetchRequest(client, 1, 2)
	blk := map[string]*vpW{}
	for _, t := range []string{"a", "bb"} {
		np := 1 + vpN("parts", 1)
		b := &vpW{}
		b.str(false, t)
		b.arr(false, np)
		for i := 0; i < np; i++ {
			pid, fo, le := vpID("pid"), vpI64("off"), vpI32("epoch")
			r.addPartition(t, pid, fo, 10, le)
			b.i32(pid)
			if v >= 9 {
				b.i32(le)
			}
			b.i64(fo)
			if v >= 5 {
				b.i64(0)
			}
			b.i32(10)
		}
		blk[t] = b
	}
	got := vpEnc(r, 7, v)
	mk := func(x, y string) []byte {
		w := &vpW{}
		w.reqHeader(1, v, 7, &client, false)
		w.i32(-1)
		w.i32(1)
		w.i32(2)
		if v >= 3 {
			w.i32(r.MaxBytes)
		}
		if v >= 4 {
			w.i8(0)
		}
		if v >= 7 {
			w.i32(0)
			w.i32(0)
		}
		w.arr(false, 2)
		w.raw(blk[x].b)
		w.raw(blk[y].b)
		if v >= 7 {
			w.arr(false, 0)
		}
		return vpFrame(w.b)
	}
	vpAssert(vpOr(vpEqBytes(got, mk("a", "bb")), vpEqBytes(got, mk("bb", "a"))), "Fetch request of two topics is encoded as the schema of its version says")
	vpReach("end")
}

// ListOffsets v0, v1: topic 0..2 bytes, 0..2 distinct partitions of any id, any timestamp.
func VP_C02_list_offsets() {
	v := []uint16{1, 0}[vpChoose("ver", 2)]
	client := vpS("client", 1)
	topic := vpS("topic", 2)
	pids := vpI32s("pid", 2)
	if len(pids) == 2 {
		vpAssume(pids[0] != pids[1])
	}
	tm := vpI64("time")
	max := vpU32("max")
	corr := vpU32("corr")
	r := NewOffsetsRequest(topic, pids, tm, max, client)
	got := vpEnc(r, corr, v)
	mk := func(ps []int32) []byte {
		w := &vpW{}
		w.reqHeader(2, v, corr, &client, false)
		w.i32(-1)
		w.arr(false, 1)
		w.str(false, topic)
		w.arr(false, len(ps))
		for _, p := range ps {
			w.i32(p)
			w.i64(tm)
			if v == 0 {
				w.u32(max)
			}
		}
		return vpFrame(w.b)
	}
	ok := vpEqBytes(got, mk(pids))
	if len(pids) == 2 {
		ok = vpOr(ok, vpEqBytes(got, mk([]int32{pids[1], pids[0]})))
	}
	vpAssert(ok, "ListOffsets request is encoded as the schema of its version says")
	vpReach("end")
}

// Metadata v1, v4, v7: null topic list, or 0..3 topics of 0..2 bytes.
func VP_C02_metadata() {
	v := []uint16{7, 4, 1}[vpChoose("ver", 3)]
	client := vpS("client", 1)
	var topics []string
	k := vpChoose("topics", 5)
	if k > 0 {
		topics = make([]string, k-1)
		for i := range topics {
			topics[i] = vpS("topic", 2)
		}
	}
	r := NewMetadataRequest(client, topics)
	r.AllowAutoTopicCreation = vpBool("auto")
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(3, v, corr, &client, false)
	if topics == nil {
		w.arr(false, -1)
	} else {
		w.arr(false, len(topics))
	}
	for _, t := range topics {
		w.str(false, t)
	}
	if v >= 4 {
		w.bool(r.AllowAutoTopicCreation)
	}
	vpChkReq("Metadata", vpEnc(r, corr, v), w)
	vpReach("end")
}
