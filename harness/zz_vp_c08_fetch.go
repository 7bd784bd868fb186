package healer

import "errors"

func vpVer8() uint16 {
	return availableVersions[API_FetchRequest][vpChoose("ver", len(availableVersions[API_FetchRequest]))]
}

// batch of the given records starting at base
func vpBatch8(base int64, attr int16, bts, mts int64, msgs []vpMsg, deltas []int64) []byte {
	var recs []byte
	for i, m := range msgs {
		recs = append(recs, vpRecBytes(0, deltas[i], int32(m.off-base), m.key, m.val, m.hs)...)
	}
	return vpBatchBytes(vpBatchMeta{base: base, epoch: 0, magic: 2, attr: attr, last: int32(len(msgs) - 1), baseTs: bts, maxTs: mts, pid: -1, seq: -1, count: int32(len(msgs)), hasCrc: true, crcOverride: vpU32("crc")}, vpCompress(int(attr&7), recs))
}

// 1..2 batches of 1..2 records (offsets consecutive or with gaps), any base offset and start offset,
// gzip/snappy/lz4/none, create- and log-append-time stamps; key/value null or 0..1 bytes and 0..1
// headers when there is a single record; every fetch version healer negotiates; reads of at most 1, 5
// or any number of bytes: exactly the records at or after the start offset are delivered, in order, with
// their content, and exactly the response is consumed.
func VP_C08_records() {
	v := vpVer8()
	codec := int16(vpChoose("codec", 4))
	base, start := vpI64("base"), vpI64("start")
	vpAssume(vpAnd(base >= 0, vpAnd(base < 1<<62, vpAnd(start >= 0, start < 1<<62))))
	content := vpChoose("content", 2) == 1
	gap, nb, nmax := int64(1), 1, 0
	if !content {
		gap = int64(1 + vpChoose("gap", 2)*4)
		nb = 1 + vpN("batches", 1)
		nmax = 1
	}
	var all []vpMsg
	var body []byte
	off := base
	for b := 0; b < nb; b++ {
		n := 1 + vpN("recs", nmax)
		bts, mts := vpI64("bts"), vpI64("mts")
		attr := codec
		lat := content && vpChoose("lat", 2) == 1
		if lat {
			attr |= 8
		}
		var ms []vpMsg
		var ds []int64
		for i := 0; i < n; i++ {
			d := int64(vpI8("ts")) % 64
			m := vpMsg{off: off + int64(i)*gap, ts: uint64(bts + d), key: []byte{byte(i)}, val: vpBytes("v", 1), magic: 2}
			if lat {
				m.ts = uint64(mts)
			}
			if content {
				m.key, m.val = vpNB("key", 1), vpNB("val", 1)
				if vpChoose("hdr", 2) == 1 {
					m.hs = []RecordHeader{{"h", vpBytes("hv", 1)}}
				}
			}
			ms, ds = append(ms, m), append(ds, d)
		}
		body = append(body, vpBatch8(off, attr, bts, mts, ms, ds)...)
		all = append(all, ms...)
		off += int64(n)*gap + 3
	}
	vpAssume(start < off)
	var want []vpMsg
	for _, m := range all {
		if m.off >= start {
			want = append(want, m)
		}
	}
	vpAssume(len(want) > 0) // the broker answers with the batch that holds the start offset
	part := vpI32("part")
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", part, 0, 0, body), start, [...]int{0, 1, 5}[vpChoose("read", 3)])
	vpAssert(err == nil && len(got) == len(want), "exactly the records at or after the start offset are delivered")
	for i := range want {
		vpSameMsg(got[i], want[i], "t", part)
	}
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}

// Responses cut short by the size limit at every byte: 2 batches of 2 records, each codec: what is
// delivered is a prefix of the records and includes every record of the complete batches; when
// nothing could be delivered the consumer is told that fetch.max.bytes is too small.
func VP_C08_truncated() {
	v := vpVer8()
	codec := int16(vpChoose("codec", 4))
	base := vpI64("base")
	vpAssume(vpAnd(base >= 0, base < 1<<62))
	var all []vpMsg
	var body []byte
	ends := []int{}
	for b := int64(0); b < 2; b++ {
		bts := vpI64("bts")
		ms := []vpMsg{{off: base + 2*b, ts: uint64(bts), key: vpBytes("k", 1), val: vpBytes("v", 2), magic: 2}, {off: base + 2*b + 1, ts: uint64(bts + 1), val: vpBytes("w", 1), magic: 2}}
		body = append(body, vpBatch8(base+2*b, codec, bts, 0, ms, []int64{0, 1})...)
		ends = append(ends, len(body))
		all = append(all, ms...)
	}
	cut := 1 + vpChoose("cut", len(body))
	complete := 0
	for _, e := range ends {
		if cut >= e {
			complete += 2
		}
	}
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 0, 0, 0, body[:cut]), base, [...]int{0, 7}[vpChoose("read", 2)])
	vpAssert(err == nil, "a truncated response is not a failure")
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	if len(got) > 0 && got[len(got)-1].Error != nil {
		e := got[len(got)-1].Error
		got = got[:len(got)-1]
		vpAssert(len(got) == 0 && e == error(&maxBytesTooSmall), "an error on a truncated response only says that nothing fitted")
	} else {
		vpAssert(len(got) > 0, "a response without a complete record is reported as too small")
	}
	vpAssert(len(got) >= complete && len(got) <= len(all), "every record of the complete batches is delivered")
	for i := range got {
		vpSameMsg(got[i], all[i], "t", 0)
	}
	vpReach("end")
}

// Old message formats: 1..3 messages of magic 0 or 1, or one compressed wrapper (gzip/snappy/lz4) of
// 1..2 of them, key/value null or 0..1 bytes in one of them, any base and start offset: exactly the
// messages at or after the start offset are delivered, with absolute offsets.
func VP_C08_old_formats() {
	v := vpVer8()
	magic := int8(vpChoose("magic", 2))
	codec := vpChoose("codec", 4)
	base, start := vpI64("base"), vpI64("start")
	vpAssume(vpAnd(base >= 0, vpAnd(base < 1<<62, vpAnd(start >= base, start < 1<<62))))
	max := 2
	if codec > 0 {
		max = 1
	}
	n := 1 + vpN("msgs", max)
	vpAssume(start < base+int64(n))
	var all []vpMsg
	var body []byte
	vary := vpVary(n)
	for i := 0; i < n; i++ {
		m := vpMsg{off: base + int64(i), key: []byte{byte(i)}, val: vpBytes("v", 1), magic: magic}
		if magic == 1 {
			m.ts = vpU64("ts")
		}
		if i == vary {
			m.key, m.val = vpNB("key", 1), vpNB("val", 1)
		}
		o := m.off
		if codec > 0 && magic == 1 {
			o = int64(i) // relative offsets inside a wrapper
		}
		body = append(body, vpOldMsg(magic, 0, o, m.ts, m.key, m.val)...)
		all = append(all, m)
	}
	if codec > 0 {
		body = vpOldMsg(magic, int8(codec), base+int64(n-1), vpU64("wts"), nil, vpCompress(codec, body))
	}
	var want []vpMsg
	for _, m := range all {
		if m.off >= start {
			want = append(want, m)
		}
	}
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 3, 0, 0, body), start, [...]int{0, 1, 5}[vpChoose("read", 3)])
	vpAssert(err == nil && len(got) == len(want), "exactly the messages at or after the start offset are delivered")
	for i := range want {
		vpSameMsg(got[i], want[i], "t", 3)
	}
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}

// Old message formats cut short at every byte: 2 messages of magic 0 or 1: complete messages are
// delivered, an incomplete one never.
func VP_C08_old_truncated() {
	v := vpVer8()
	magic := int8(vpChoose("magic", 2))
	var all []vpMsg
	var body []byte
	ends := []int{}
	for i := 0; i < 2; i++ {
		m := vpMsg{off: int64(i + 5), key: vpBytes("k", 1), val: vpBytes("v", 4), magic: magic}
		if magic == 1 {
			m.ts = vpU64("ts")
		}
		body = append(body, vpOldMsg(magic, 0, m.off, m.ts, m.key, m.val)...)
		ends = append(ends, len(body))
		all = append(all, m)
	}
	cut := 1 + vpChoose("cut", len(body))
	complete := 0
	for _, e := range ends {
		if cut >= e {
			complete++
		}
	}
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 0, 0, 0, body[:cut]), 5, [...]int{0, 1}[vpChoose("read", 2)])
	vpAssert(err == nil, "a truncated response is not a failure")
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	if len(got) > 0 && got[len(got)-1].Error != nil {
		e := got[len(got)-1].Error
		got = got[:len(got)-1]
		vpAssert(len(got) == 0 && e == error(&maxBytesTooSmall), "an error on a truncated response only says that nothing fitted")
	} else {
		vpAssert(len(got) > 0, "a response without a complete message is reported as too small")
	}
	vpAssert(len(got) == complete, "exactly the complete messages are delivered")
	for i := range got {
		vpSameMsg(got[i], all[i], "t", 0)
	}
	vpReach("end")
}

// Errors and empty answers: any partition error code, any top-level error code (v7+), 0..2 aborted
// transactions, empty record set or one record: an error code is delivered as exactly one error that
// is this code; an empty record set delivers nothing and no error.
func VP_C08_errors() {
	v := vpVer8()
	code, top := vpI16("code"), int16(0)
	if v >= 7 {
		top = vpI16("top")
	}
	var recs []byte
	one := vpMsg{off: 5, ts: 9, val: vpBytes("v", 1), magic: 2}
	hasRec := vpChoose("rec", 2) == 1
	if hasRec {
		recs = vpBatch8(5, 0, 9, 9, []vpMsg{one}, []int64{0})
	}
	ab := 0
	if v >= 4 {
		ab = vpChoose("aborted", 4) - 1 // -1: null
	}
	got, conn, err := vpStream(v, vpFetchBody(v, 1, top, "t", 0, code, ab, recs), 5, [...]int{0, 1, 5}[vpChoose("read", 3)])
	vpAssert(err == nil, "the response is decoded")
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	if code == 0 && top == 0 {
		if hasRec {
			vpAssert(len(got) == 1, "the record is delivered")
			vpSameMsg(got[0], one, "t", 0)
		} else {
			vpAssert(len(got) == 0, "an empty answer delivers nothing")
		}
	} else {
		vpAssert(len(got) == 1 && got[0].Error != nil, "an error code is delivered as one error")
		vpAssert(vpOr(errors.Is(got[0].Error, KafkaError(code)) && code != 0, errors.Is(got[0].Error, KafkaError(top)) && top != 0), "the error is the code in the response")
	}
	vpReach("end")
}

// A batch with a compression codec healer does not know (4..7): never delivered as if it were not
// compressed; the consumer sees an error.
func VP_C08_unknown_codec() {
	v := vpVer8()
	m := vpMsg{off: 5, ts: 9, val: vpBytes("v", 1), magic: 2}
	recs := vpBatch8(5, int16(4+vpChoose("codec", 4)), 9, 9, []vpMsg{m}, []int64{0})
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 0, 0, 0, recs), 5, 0)
	vpAssert(err == nil && len(got) == 1 && got[0].Error != nil && got[0].Error != error(&maxBytesTooSmall), "an unknown compression codec is reported as an error")
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}

// A data batch, a transaction marker batch (attribute bit 5) and another data batch, in any
// order of the three, each codec for the data: only data records are delivered.
func VP_C08_control() {
	v := vpVer8()
	pos := vpChoose("pos", 3)
	codec := int16(vpChoose("codec", 4))
	base := vpI64("base")
	vpAssume(vpAnd(base >= 0, base < 1<<62))
	var body []byte
	var want []vpMsg
	for i := 0; i < 3; i++ {
		off := base + int64(i)
		if i == pos {
			body = append(body, vpBatch8(off, 0x30, 5, 5, []vpMsg{{off: off, key: []byte{0, 0, 0, 1}, val: vpBytes("marker", 6)}}, []int64{0})...)
			continue
		}
		m := vpMsg{off: off, ts: 5, key: vpBytes("k", 1), val: vpBytes("v", 1), magic: 2}
		body = append(body, vpBatch8(off, codec|0x10, 5, 5, []vpMsg{m}, []int64{0})...)
		want = append(want, m)
	}
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 0, 0, 0, body), base, [...]int{0, 5}[vpChoose("read", 2)])
	vpAssert(err == nil && len(got) == len(want), "exactly the data records are delivered")
	for i := range want {
		vpSameMsg(got[i], want[i], "t", 0)
	}
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}

// One record with any offset delta (32 bit, not negative) and any timestamp delta (64 bit): delivered
// with base offset plus delta and base timestamp plus delta.
func VP_C08_deltas() {
	v := vpVer8()
	base, delta, bts, tsd := vpI64("base"), vpI32("delta"), vpI64("bts"), vpI64("tsd")
	vpAssume(vpAnd(vpAnd(base >= 0, base < 1<<62), delta >= 0))
	m := vpMsg{off: base + int64(delta), ts: uint64(bts + tsd), val: vpBytes("v", 1), magic: 2}
	body := vpBatchBytes(vpBatchMeta{base: base, magic: 2, last: delta, baseTs: bts, maxTs: bts, pid: -1, seq: -1, count: 1}, vpRecBytes(0, tsd, delta, m.key, m.val, nil))
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 0, 0, 0, body), base, 0)
	vpAssert(err == nil && len(got) == 1, "the record is delivered")
	vpSameMsg(got[0], m, "t", 0)
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}

// A batch (each codec) or a message set of magic 0 or 1 (alone or in a wrapper) of 3 records, the key, the value or the
// header value of one of them of 8192 or 70000 bytes; every fetch version healer negotiates; reads of at most 4096 or any
// number of bytes; start offset the first or the last: all are delivered from the start offset on, with their content.
func VP_C08_long() {
	v := vpVer8()
	codec, magic := vpChoose("codec", 4), int8(2-vpChoose("magic", 3))
	where := vpChoose("where", 3)
	vpAssume(magic == 2 || where < 2)
	base := int64(5)
	var all []vpMsg
	var ds []int64
	long := vpChoose("long", 3)
	for i := 0; i < 3; i++ {
		m := vpMsg{off: base + int64(i), ts: 1000, key: vpBytes("k", 1), val: vpBytes("v", 1), magic: magic}
		if i == long {
			b := vpLong("long", [...]int{8192, 70000}[vpChoose("len", 2)])
			switch where {
			case 0:
				m.val = b
			case 1:
				m.key = b
			case 2:
				m.hs = []RecordHeader{{"h", b}}
			}
		}
		all, ds = append(all, m), append(ds, 0)
	}
	var body []byte
	if magic == 2 {
		body = vpBatch8(base, int16(codec), 1000, 1000, all, ds)
	} else {
		for i, m := range all {
			o := m.off
			if codec > 0 && magic == 1 {
				o = int64(i)
			}
			body = append(body, vpOldMsg(magic, 0, o, m.ts, m.key, m.val)...)
		}
		if codec > 0 {
			body = vpOldMsg(magic, int8(codec), base+2, 1000, nil, vpCompress(codec, body))
		}
	}
	first := 2 * vpChoose("start", 2)
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 3, 0, 0, body), base+int64(first), [...]int{0, 4096}[vpChoose("read", 2)])
	vpAssert(err == nil && len(got) == 3-first, "exactly the records at or after the start offset are delivered")
	for i := range got {
		vpSameMsg(got[i], all[first+i], "t", 3)
	}
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}

// 1..4 batches of 1..20 records (offsets consecutive), each codec; every fetch version; every start offset; reads of at
// most 64 or any number of bytes: exactly the records at or after the start offset are delivered, in order.
func VP_C08_many() {
	v := vpVer8()
	codec := int16(vpChoose("codec", 4))
	nb, n := 1+3*vpChoose("batches", 2), [...]int{3, 20}[vpChoose("recs", 2)]
	base := int64(1 << 33)
	var all []vpMsg
	var body []byte
	for b := 0; b < nb; b++ {
		var ms []vpMsg
		var ds []int64
		for i := 0; i < n; i++ {
			id := byte(b*n + i)
			ms = append(ms, vpMsg{off: base + int64(b*n+i), ts: uint64(1000 + i), key: []byte{id}, val: []byte{^id}, magic: 2})
			ds = append(ds, int64(i))
		}
		ms[n-1].val = vpBytes("v", 3)
		body = append(body, vpBatch8(ms[0].off, codec, 1000, 1000+int64(n), ms, ds)...)
		all = append(all, ms...)
	}
	first := [...]int{0, 1, n - 1, n, len(all) - 1}[vpChoose("start", 5)]
	vpAssume(first < len(all))
	got, conn, err := vpStream(v, vpFetchBody(v, 1, 0, "t", 3, 0, 0, body), base+int64(first), [...]int{0, 64}[vpChoose("read", 2)])
	vpAssert(err == nil && len(got) == len(all)-first, "exactly the records at or after the start offset are delivered")
	for i := range got {
		vpSameMsg(got[i], all[first+i], "t", 3)
	}
	vpAssert(len(conn.in) == 3, "exactly the bytes of the response are consumed")
	vpReach("end")
}
