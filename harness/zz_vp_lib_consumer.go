package healer

import "time"

// the next message; the harness fails if none comes within 30 s
func vpRecv(ch <-chan *FullMessage) *FullMessage { return vpRecvFor(ch, 30*time.Second) }

func vpRecvFor(ch <-chan *FullMessage, d time.Duration) *FullMessage {
	select {
	case m := <-ch:
		return m
	case <-time.After(d):
		vpAssert(false, "the consumer goes on delivering")
		vpAssume(false)
		return nil
	}
}

// one fetch request as a broker reads it
type vpFetchReq struct {
	topic    string
	part     int32
	epoch    int32
	offset   int64
	maxBytes int32
	wait     int32
	minBytes int32
	ok       bool
}

func vpParseFetch(q *vpReq) (f vpFetchReq) {
	r := &vpRd{b: q.raw, o: q.rd.o}
	r.i32()
	f.wait = r.i32()
	f.minBytes = r.i32()
	if q.ver >= 3 {
		r.i32()
	}
	if q.ver >= 4 {
		r.u8()
	}
	if q.ver >= 7 {
		r.i32()
		r.i32()
	}
	if r.i32() != 1 {
		return
	}
	f.topic = r.str()
	if r.i32() != 1 {
		return
	}
	f.part = r.i32()
	if q.ver >= 9 {
		f.epoch = r.i32()
	}
	f.offset = r.i64()
	if q.ver >= 5 {
		r.i64()
	}
	f.maxBytes = r.i32()
	if q.ver >= 7 {
		r.i32()
	}
	f.ok = !r.bad && r.o == len(q.raw)
	return
}

// a partition's log: batches in offset order
type vpLogBatch struct {
	base, last int64
	offs       []int64 // offsets of the records that are there
	attr       int16
	bytes      []byte
}

func vpMkBatch(base, last int64, attr int16, offs ...int64) vpLogBatch {
	var recs []byte
	for _, o := range offs {
		recs = append(recs, vpRecBytes(0, 0, int32(o-base), nil, []byte{byte(o)}, nil)...)
	}
	b := vpBatchBytes(vpBatchMeta{base: base, magic: 2, attr: attr, last: int32(last - base), baseTs: 5, maxTs: 5, pid: -1, seq: -1, count: int32(len(offs))}, vpCompress(int(attr&7), recs))
	return vpLogBatch{base, last, offs, attr, b}
}

// the records a fetch from off gets: at most max batches starting with the one that holds off
func vpLogFrom(log []vpLogBatch, off int64, max int) (b []byte) {
	for _, x := range log {
		if x.last >= off && max > 0 {
			b = append(b, x.bytes...)
			max--
		}
	}
	return
}

// the offsets a consumer should see from off on
func vpLogOffs(log []vpLogBatch, off int64) (r []int64) {
	for _, x := range log {
		if x.attr&0x20 != 0 {
			continue
		}
		for _, o := range x.offs {
			if o >= off {
				r = append(r, o)
			}
		}
	}
	return
}

func vpFetchAnswer(q *vpReq, f vpFetchReq, code int16, recs []byte) []byte {
	w := &vpW{}
	w.u32(q.corr)
	if q.ver >= 1 {
		w.i32(0)
	}
	if q.ver >= 7 {
		w.i16(0)
		w.i32(0)
	}
	w.arr(false, 1)
	w.str(false, f.topic)
	w.arr(false, 1)
	w.i32(f.part)
	w.i16(code)
	w.i64(100)
	if q.ver >= 4 {
		w.i64(100)
	}
	if q.ver >= 5 {
		w.i64(0)
	}
	if q.ver >= 4 {
		w.arr(false, 0)
	}
	w.bytes(false, recs)
	return vpFrame(w.b)
}

// answer to a list-offsets request for one partition
func vpOffsetsAnswer(q *vpReq, code int16, earliest, latest int64) []byte {
	r := &vpRd{b: q.raw, o: q.rd.o}
	r.i32()
	r.i32()
	topic := r.str()
	r.i32()
	part := r.i32()
	t := r.i64()
	off := latest
	if t == -2 {
		off = earliest
	}
	w := &vpW{}
	w.u32(q.corr)
	w.arr(false, 1)
	w.str(false, topic)
	w.arr(false, 1)
	w.i32(part)
	w.i16(code)
	if q.ver == 0 {
		w.arr(false, 1)
		w.i64(off)
	} else {
		w.i64(-1)
		w.i64(off)
	}
	return vpFrame(w.b)
}

func vpConsumerCfg() ConsumerConfig {
	c := DefaultConsumerConfig()
	c.BootstrapServers = "b1:9092"
	c.AutoCommit = false
	return c
}

// answer to an offset-fetch request for one partition
func vpOffsetFetchAnswer(q *vpReq, off int64, code int16) []byte {
	r := &vpRd{b: q.raw, o: q.rd.o}
	r.str()
	r.i32()
	topic := r.str()
	r.i32()
	part := r.i32()
	w := &vpW{}
	w.u32(q.corr)
	w.arr(false, 1)
	w.str(false, topic)
	w.arr(false, 1)
	w.i32(part)
	w.i64(off)
	w.str(false, "")
	w.i16(code)
	return vpFrame(w.b)
}

// one offset commit as a broker reads it
type vpCommit struct {
	group  string
	gen    int32
	member string
	topic  string
	part   int32
	off    int64
	ok     bool
	ver    uint16
}

func vpParseCommit(q *vpReq) (c vpCommit) {
	r := &vpRd{b: q.raw, o: q.rd.o}
	c.ver = q.ver
	c.group = r.str()
	c.gen, c.member = -1, ""
	if q.ver >= 1 {
		c.gen = r.i32()
		c.member = r.str()
	}
	if q.ver >= 2 {
		vpAssert(r.i64() == -1, "committed offsets are kept as long as the broker's configuration says")
	}
	if r.i32() != 1 {
		return
	}
	c.topic = r.str()
	if r.i32() != 1 {
		return
	}
	c.part = r.i32()
	c.off = r.i64()
	if q.ver == 1 {
		r.i64()
	}
	r.nstr()
	c.ok = !r.bad && r.o == len(q.raw)
	return
}

func vpCommitAnswer(q *vpReq, c vpCommit, code int16) []byte {
	w := &vpW{}
	w.u32(q.corr)
	w.arr(false, 1)
	w.str(false, c.topic)
	w.arr(false, 1)
	w.i32(c.part)
	w.i16(code)
	return vpFrame(w.b)
}
