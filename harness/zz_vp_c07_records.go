package healer

import "context"

// vpRec7 is a record with any header fields.
func vpRec7(i int, vary bool) *Record {
	r := &Record{attributes: vpI8("attr"), timestampDelta: int64(i), offsetDelta: int32(i), key: []byte{1}, value: []byte{2}, Headers: []RecordHeader{}}
	if vary {
		r.key, r.value = vpNB("key", 2), vpNB("val", 2)
	}
	return r
}

// One record: any attributes, timestamp delta (64 bit) and offset delta (32 bit), key and value
// null or 0..2 bytes: encoding is the reference encoding, decoding restores it exactly and consumes
// exactly its bytes, any bytes following.
func VP_C07_record() {
	r := &Record{attributes: vpI8("attr"), timestampDelta: vpI64("ts"), offsetDelta: vpI32("delta"), Headers: []RecordHeader{}}
	r.key, r.value = vpNB("key", 2), vpNB("val", 2)
	ref := vpRecBytes(r.attributes, r.timestampDelta, r.offsetDelta, r.key, r.value, nil)
	b, err := r.Encode(2)
	vpAssert(err == nil && vpEqBytes(b, ref), "a record is encoded as the record format says")
	in := append(append([]byte{}, ref...), vpBytes("rest", 2)...)
	vpNoPanic("decoding a well-formed record", func() {
		d, n, err := DecodeToRecord(in)
		vpAssert(err == nil && n == len(ref), "record decoding consumes exactly the record")
		vpAssert(d.attributes == r.attributes && d.timestampDelta == r.timestampDelta && d.offsetDelta == r.offsetDelta, "record decoding restores attributes and deltas")
		vpAssert(vpNBEq(d.key, r.key), "record decoding restores the key")
		vpAssert(vpNBEq(d.value, r.value), "record decoding restores the value")
		vpAssert(len(d.Headers) == 0, "a record without headers decodes without headers")
	})
	vpReach("end")
}

// Records with 0..2 headers, header keys of 0..1 bytes, header values null or 0..2 bytes, and keys
// and values of 63..65 bytes (where the length needs a second varint byte).
func VP_C07_headers() {
	r := &Record{Headers: make([]RecordHeader, vpN("hdrs", 2))}
	for i := range r.Headers {
		r.Headers[i] = RecordHeader{vpS("hkey", 1), vpNB("hval", 2)}
	}
	switch vpChoose("long", 3) {
	case 1:
		r.key = vpBytes("key", 62+vpN("kl", 3))
	case 2:
		r.value = vpBytes("val", 62+vpN("vl", 3))
	}
	ref := vpRecBytes(0, 0, 0, r.key, r.value, r.Headers)
	b, err := r.Encode(2)
	vpAssert(err == nil && vpEqBytes(b, ref), "a record with headers is encoded as the record format says")
	vpNoPanic("decoding a well-formed record with headers", func() {
		d, n, err := DecodeToRecord(append(append([]byte{}, ref...), 7))
		vpAssert(err == nil && n == len(ref), "record decoding consumes exactly the record")
		vpAssert(vpNBEq(d.key, r.key) && vpNBEq(d.value, r.value) && len(d.Headers) == len(r.Headers), "record decoding restores key, value and header count")
		for i, h := range d.Headers {
			vpAssert(h.Key == r.Headers[i].Key && vpNBEq(h.Value, r.Headers[i].Value), "record decoding restores every header")
		}
	})
	vpReach("end")
}

// A batch of 0..3 records, every batch header field symbolic, uncompressed: the encoding is the
// reference encoding including batch length and CRC-32C.
func VP_C07_batch() {
	rb := &RecordBatch{BaseOffset: vpI64("base"), BatchLength: vpI32("len"), PartitionLeaderEpoch: vpI32("epoch"), Magic: 2, CRC: vpU32("crc"),
		Attributes: int16(vpChoose("attr", 3)) << 3, LastOffsetDelta: vpI32("last"), BaseTimestamp: vpI64("bts"), MaxTimestamp: vpI64("mts"), ProducerID: vpI64("pid"), ProducerEpoch: vpI16("pepoch"), BaseSequence: vpI32("seq")}
	n := vpN("recs", 3)
	vary := vpVary(n)
	var recs []byte
	for i := 0; i < n; i++ {
		r := vpRec7(i, i == vary)
		rb.Records = append(rb.Records, r)
		recs = append(recs, vpRecBytes(r.attributes, r.timestampDelta, r.offsetDelta, r.key, r.value, nil)...)
	}
	ref := vpBatchBytes(vpBatchMeta{base: rb.BaseOffset, epoch: rb.PartitionLeaderEpoch, magic: 2, attr: rb.Attributes, last: rb.LastOffsetDelta, baseTs: rb.BaseTimestamp, maxTs: rb.MaxTimestamp, pid: rb.ProducerID, pepoch: rb.ProducerEpoch, seq: rb.BaseSequence, count: int32(n)}, recs)
	b, err := rb.Encode(9)
	vpAssert(err == nil && len(b) == len(ref), "a record batch has the length the format says")
	for i := range ref {
		if i < 17 || i >= 21 {
			vpAssert(b[i] == ref[i], "a record batch is encoded as the batch format says")
		}
	}
	vpAssert(vpEqBytes(b[17:21], ref[17:21]), "a record batch carries the CRC-32C of its bytes")
	vpReach("end")
}

// A batch of 1..2 records compressed with gzip, snappy or lz4: the records section decompresses (with
// the codec library named in the attributes) to the reference encoding of the records; header, length
// and CRC are as for an uncompressed batch.
func VP_C07_batch_compressed() {
	codec := 1 + vpChoose("codec", 3)
	rb := &RecordBatch{Magic: 2, Attributes: int16(codec)}
	n := 1 + vpN("recs", 1)
	vary := vpVary(n)
	var recs []byte
	for i := 0; i < n; i++ {
		r := vpRec7(i, i == vary)
		rb.Records = append(rb.Records, r)
		recs = append(recs, vpRecBytes(r.attributes, r.timestampDelta, r.offsetDelta, r.key, r.value, nil)...)
	}
	b, err := rb.Encode(9)
	vpAssert(err == nil && len(b) >= 61, "a compressed record batch is encoded")
	got, err := vpDecompress(codec, b[61:])
	vpAssert(err == nil && vpEqBytes(got, recs), "the records of a compressed batch decompress to the records")
	ref := vpBatchBytes(vpBatchMeta{magic: 2, attr: int16(codec), count: int32(n)}, b[61:])
	vpAssert(vpEqBytes(b[:61], ref[:61]), "the header of a compressed batch describes it")
	vpReach("end")
}

// A SimpleProducer given 1..3 messages and flushed, for each compression type and produce version
// 0 and 9; key nil or 0..2 bytes, value nil or 0..2 bytes (case split in one of the messages); the
// caller overwrites its buffers after AddMessage: the broker receives one well-formed batch with
// exactly these messages in order at offset deltas 0..n-1 for the producer's topic and partition.
func VP_C07_producer_batch() {
	codec := vpChoose("codec", 4)
	v := uint16(9 * vpChoose("v9", 2))
	acks, timeout, part := vpI16("acks"), vpI32("timeout"), vpI32("part")
	vpAssume(acks != 0)
	topic := vpS1("topic", 2)
	var writes [][]byte
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, topics: []vpTopic{{name: topic, parts: []vpPart{{id: part, leader: 1}}}}, ranges: map[uint16][2]uint16{0: {0, v}}}
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api != 0 {
			return nil, false
		}
		writes = append(writes, q.raw)
		return vpProduceOK(q.raw, 7), true
	}
	k.install()
	cfg := vpProducerCfg()
	cfg.ClientID, cfg.Acks, cfg.RequestTimeoutMS, cfg.CompressionType, cfg.FlushIntervalMS = "c", acks, timeout, [...]string{"none", "gzip", "snappy", "lz4"}[codec], 1000000
	p, err := NewSimpleProducer(context.Background(), topic, part, cfg)
	vpAssert(err == nil, "a producer is created")
	n := 1 + vpN("msgs", 2)
	vary := vpVary(n)
	var want []vpSentRec
	for i := 0; i < n; i++ {
		k, v := []byte{byte(i)}, vpBytes("v", 1)
		if i == vary {
			k, v = vpNB("key", 2), vpNB("val", 2)
		}
		want = append(want, vpSentRec{vpClone(k), vpClone(v)})
		vpAssert(p.AddMessage(k, v) == nil, "AddMessage accepts the message")
		for j := range k {
			k[j] = 0xee
		}
		for j := range v {
			v[j] = 0xee
		}
	}
	vpAssert(len(writes) == 0, "nothing is sent before the batch is full or flushed")
	vpAssert(p.Flush() == nil, "Flush succeeds when the broker accepts the batch")
	vpAssert(len(writes) == 1, "one flush is one request")
	s, ok := vpParseProduce(writes[0])
	vpAssert(ok, "the produce request is well-formed")
	vpAssert(s.topic == topic && s.partition == part && s.acks == acks && s.timeout == timeout, "the produce request names topic, partition, acks and timeout")
	vpAssert(int(s.attr) == codec && int(s.last) == n-1 && len(s.recs) == n, "the batch has the configured compression, and last offset delta and count of its records")
	for i := range want {
		vpAssert(int(s.delta[i]) == i, "records have consecutive offset deltas")
		vpAssert(vpNBEq(s.recs[i].key, want[i].key), "the key is the one that was added")
		vpAssert(vpNBEq(s.recs[i].val, want[i].val), "the value is the one that was added")
	}
	p.Close()
	vpReach("end")
}

func vpClone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// Keys, values and header values of 8191, 8192 and 1048576 bytes (where the length needs a third and a fourth varint
// byte), the first and the last byte of any value: encoded as the record format says and decoded back.
func VP_C07_long() {
	r := &Record{offsetDelta: vpI32("delta"), key: []byte{1}, value: []byte{2}, Headers: []RecordHeader{}}
	n := [...]int{8191, 8192, 1 << 20}[vpChoose("len", 3)]
	switch vpChoose("long", 3) {
	case 0:
		r.key = vpLong("key", n)
	case 1:
		r.value = vpLong("val", n)
	case 2:
		r.Headers = []RecordHeader{{"h", vpLong("hval", n)}}
	}
	ref := vpRecBytes(0, 0, r.offsetDelta, r.key, r.value, r.Headers)
	vpNoPanic("a long record", func() {
		b, err := r.Encode(2)
		vpAssert(err == nil && vpEqBytes(b, ref), "a long record is encoded as the record format says")
		d, m, err := DecodeToRecord(append(append([]byte{}, ref...), 7))
		vpAssert(err == nil && m == len(ref), "record decoding consumes exactly the record")
		vpAssert(vpNBEq(d.key, r.key) && vpNBEq(d.value, r.value) && len(d.Headers) == len(r.Headers), "record decoding restores key, value and header count")
		for i, h := range d.Headers {
			vpAssert(h.Key == r.Headers[i].Key && vpNBEq(h.Value, r.Headers[i].Value), "record decoding restores every header")
		}
	})
	vpReach("end")
}
