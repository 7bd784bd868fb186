package healer

import (
	"context"
	"io"
)

// one record as the consumer should see it
type vpMsg struct {
	off      int64
	ts       uint64
	key, val []byte
	hs       []RecordHeader
	magic    int8
}

// vpFetchBody is a fetch response (without the size prefix) for one topic and partition.
func vpFetchBody(v uint16, corr uint32, topErr int16, topic string, part int32, code int16, aborted int, recs []byte) []byte {
	w := &vpW{}
	w.u32(corr)
	if v >= 1 {
		w.i32(vpI32("throttle"))
	}
	if v >= 7 {
		w.i16(topErr)
		w.i32(0)
	}
	w.arr(false, 1)
	w.str(false, topic)
	w.arr(false, 1)
	w.i32(part)
	w.i16(code)
	w.i64(vpI64("hw"))
	if v >= 4 {
		w.i64(vpI64("lso"))
	}
	if v >= 5 {
		w.i64(vpI64("lst"))
	}
	if v >= 4 {
		w.arr(false, aborted)
		for i := 0; i < aborted; i++ {
			w.i64(vpI64("apid"))
			w.i64(vpI64("aoff"))
		}
	}
	w.bytes(false, recs)
	return w.b
}

// vpStream decodes a response body through a connection that delivers it in chunks of at most
// maxRead bytes and is followed by other bytes; it returns what was delivered.
func vpStream(v uint16, body []byte, start int64, maxRead int) (got []*FullMessage, conn *vpConn, err error) {
	conn = &vpConn{in: append(append([]byte{}, body...), 0xaa, 0xbb, 0xcc), maxRead: maxRead}
	ch := make(chan *FullMessage, 100)
	d := &fetchResponseStreamDecoder{ctx: context.Background(), buffers: &io.LimitedReader{R: conn, N: int64(len(body))}, messages: ch, totalLength: len(body), version: v}
	vpNoPanic("decoding a well-formed fetch response", func() {
		err = d.streamDecode(context.Background(), start)
	})
	close(ch)
	for m := range ch {
		got = append(got, m)
	}
	return
}

func vpSameMsg(m *FullMessage, e vpMsg, topic string, part int32) {
	vpAssert(m.Error == nil && m.Message != nil, "records come without an error")
	vpAssert(m.TopicName == topic && m.PartitionID == part, "a message names its topic and partition")
	vpAssert(m.Message.Offset == e.off, "a message has its record's offset")
	vpAssert(vpImplies(e.magic > 0, m.Message.Timestamp == e.ts), "a message has its record's timestamp")
	vpAssert(vpNBEq(m.Message.Key, e.key), "a message has its record's key")
	vpAssert(vpNBEq(m.Message.Value, e.val), "a message has its record's value")
	vpAssert(len(m.Message.Headers) == len(e.hs), "a message has its record's headers")
	for i := range e.hs {
		vpAssert(m.Message.Headers[i].Key == e.hs[i].Key && vpNBEq(m.Message.Headers[i].Value, e.hs[i].Value), "a message has its record's headers")
	}
}

// a message of the old formats (magic 0 or 1)
func vpOldMsg(magic int8, attr int8, off int64, ts uint64, key, val []byte) []byte {
	b := &vpW{}
	b.i8(magic)
	b.i8(attr)
	if magic == 1 {
		b.i64(int64(ts))
	}
	nb := func(x []byte) {
		if x == nil {
			b.i32(-1)
		} else {
			b.bytes(false, x)
		}
	}
	nb(key)
	nb(val)
	w := &vpW{}
	w.i64(off)
	w.i32(int32(len(b.b) + 4))
	w.u32(0) // crc
	w.raw(b.b)
	return w.b
}
