package healer

import (
	"errors"
	"time"
)

// A simple consumer on a log of four batches (two records; two with a gap; a transaction marker; one)
// and started at any of the first offsets; the first two fetches meet any of: normal answer with 1 or
// all batches, empty answer, error code 1 (retention has removed
// what is asked for), 6, 74 or any other, answer cut inside the first or second
// batch, connection closed before or inside the answer, read timeout before or inside the answer with
// the rest arriving late, the leader dying for good; fetch v10 and v0. One schedule. The user receives exactly
// the records from the start offset on, in order, none twice; fetches go to the partition's leader.
func VP_C10_sequence() {
	vpDelays(0)
	vpMapOrder(1)
	log := []vpLogBatch{vpMkBatch(10, 11, 0, 10, 11), vpMkBatch(12, 14, 0, 12, 14), vpMkBatch(15, 15, 0x20, 15), vpMkBatch(16, 16, 0, 16)}
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	if vpChoose("old", 2) == 1 {
		k.ranges = map[uint16][2]uint16{1: {0, 3}}
	}
	start := int64(10 + vpChoose("start", 4)) // 13 is in the gap
	cfg := vpConsumerCfg()
	cfg.FromBeginning = vpChoose("from", 2) == 1
	cfg.FetchMaxBytes = 1 << 30
	var got []int64
	earliest, latest := int64(10), int64(17)
	lost := false
	fetches := 0
	dead := int32(0)
	k.dialErr = func(n int32) error {
		if n == dead {
			return errors.New("refused")
		}
		return nil
	}
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.node == dead {
			return nil, true
		}
		switch q.api {
		case 2:
			return vpOffsetsAnswer(q, 0, earliest, latest), true
		case 1:
		default:
			return nil, false
		}
		f := vpParseFetch(q)
		vpAssert(f.ok && f.topic == "t" && f.part == 0, "fetches ask for the consumed partition")
		vpAssert(f.maxBytes > 0, "fetches ask for a positive number of bytes")
		vpAssert(q.node == k.topics[0].parts[0].leader, "fetches go to the leader")
		fetches++
		ev := 1
		if fetches <= 2 {
			ev = vpChoose("event", 14)
		}
		recs := vpLogFrom(log, f.offset, 9)
		if len(recs) == 0 {
			time.Sleep(500 * time.Millisecond)
			return vpFetchAnswer(q, f, 0, nil), true
		}
		full := vpFetchAnswer(q, f, 0, recs)
		switch ev {
		case 0: // the first batch only
			return vpFetchAnswer(q, f, 0, vpLogFrom(log, f.offset, 1)), true
		case 2:
			return vpFetchAnswer(q, f, 0, nil), true
		case 3: // what is asked for is gone; offset 16 is where the consumer should go on
			lost = true
			earliest, latest = 16, 17
			if !cfg.FromBeginning {
				earliest, latest = 12, 16
			}
			return vpFetchAnswer(q, f, 1, nil), true
		case 4: // the leader moves
			dead = 0
			k.topics[0].parts[0].leader = 3 - q.node
			return vpFetchAnswer(q, f, 6, nil), true
		case 5:
			return vpFetchAnswer(q, f, 74, nil), true
		case 6:
			c := vpI16("code")
			vpAssume(vpAnd(c != 0, vpAnd(c != 1, vpAnd(c != 6, c != 74))))
			return vpFetchAnswer(q, f, c, nil), true
		case 7:
			return vpFetchAnswer(q, f, 0, recs[:20]), true
		case 8:
			return vpFetchAnswer(q, f, 0, recs[:min(len(log[0].bytes)+30, len(recs)-1)]), true
		case 9: // closed before the answer
			return nil, true
		case 10: // closed inside the answer
			return full[:len(full)-5], true
		case 11: // timeout, late answer
			q.conn.late = full
			return nil, true
		case 12: // timeout inside the answer, the rest late
			q.conn.late = full[40:]
			return full[:40], true
		case 13: // the broker dies, the other one takes over
			dead = q.node
			k.topics[0].parts[0].leader = 3 - q.node
			return nil, true
		}
		return full, true
	}
	k.install()
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	ch, err := c.Consume(start, nil)
	vpAssert(err == nil, "consuming starts")
	for len(got) == 0 || got[len(got)-1] != 16 {
		m := vpRecv(ch)
		vpAssert(m.Error == nil && m.Message != nil, "the user gets messages")
		vpAssert(len(m.Message.Value) == 1 && m.Message.Value[0] == byte(m.Message.Offset), "a message has its record's value")
		got = append(got, m.Message.Offset)
	}
	c.Stop()
	want := vpLogOffs(log, start)
	if lost { // a prefix of it, then 16
		want = append(want[:len(got)-1:len(got)-1], 16)
	}
	vpAssert(len(got) == len(want), "exactly the records of the log are delivered")
	for i := range want {
		vpAssert(got[i] == want[i], "records are delivered in order, once")
	}
	vpReach("end")
}

// A simple consumer on a compacted log of three batches for offsets 10-12, 13-15 and 16, of which any of the first six records remain
// (a batch may be empty), compressed or not, with one or two batches an answer, started at 10 or 14: it gets to the end and has
// received exactly the records that remain.
func VP_C10_compacted() {
	vpDelays(0)
	vpMapOrder(1)
	attr := int16(vpChoose("compression", 2)) * 2
	mask := vpChoose("kept", 64)
	kept := func(from int64) (r []int64) {
		for o := from; o < from+3; o++ {
			if mask>>uint(o-10)&1 == 1 {
				r = append(r, o)
			}
		}
		return
	}
	log := []vpLogBatch{vpMkBatch(10, 12, attr, kept(10)...), vpMkBatch(13, 15, attr, kept(13)...), vpMkBatch(16, 16, attr, 16)}
	for i := range log[:2] {
		if len(log[i].offs) == 0 { // an empty batch has no attributes left and nothing to uncompress
			x := log[i]
			log[i].bytes = vpBatchBytes(vpBatchMeta{base: x.base, magic: 2, last: 2, baseTs: 5, maxTs: 5, pid: -1, seq: -1}, nil)
		}
	}
	per := 1 + vpChoose("per", 2)
	start := []int64{10, 14}[vpChoose("start", 2)]
	cfg := vpConsumerCfg()
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	fetches := 0
	k.handle = func(q *vpReq) ([]byte, bool) {
		switch q.api {
		case 2:
			return vpOffsetsAnswer(q, 0, 10, 17), true
		case 1:
		default:
			return nil, false
		}
		f := vpParseFetch(q)
		vpAssert(f.ok && f.topic == "t" && f.part == 0, "fetches ask for the consumed partition")
		fetches++
		vpAssert(fetches < 10 || f.offset > 16, "a consumer gets on in a compacted log")
		recs := vpLogFrom(log, f.offset, per)
		if len(recs) == 0 || fetches >= 10 {
			time.Sleep(500 * time.Millisecond)
			return vpFetchAnswer(q, f, 0, nil), true
		}
		return vpFetchAnswer(q, f, 0, recs), true
	}
	k.install()
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	ch, err := c.Consume(start, nil)
	vpAssert(err == nil, "consuming starts")
	want := vpLogOffs(log, start)
	for _, o := range want {
		m := vpRecv(ch)
		vpAssert(m.Error == nil && m.Message != nil, "the user gets messages")
		vpAssert(m.Message.Offset == o, "exactly the records that remain are delivered, in order")
	}
	c.Stop()
	vpReach("end")
}

// Where a consumer starts: given offset 12, -1 (latest) or -2 (earliest), with and without a group,
// any committed offset (or none), any earliest and latest offset; the first metadata answer without a
// leader, the first list-offsets or offset-fetch answer failing with any error code or a closed
// connection; offsets kept in Kafka or ZooKeeper. The first fetch asks for the given offset, else the
// committed one, else the earliest or latest one.
func VP_C10_start() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	cfg := vpConsumerCfg()
	cfg.OffsetsStorage = vpChoose("storage", 2)
	if vpChoose("group", 2) == 1 {
		cfg.GroupID = "g"
	}
	off := []int64{12, -1, -2}[vpChoose("offset", 3)]
	earliest, latest := vpI64("earliest"), vpI64("latest")
	vpAssume(vpAnd(earliest >= 0, vpAnd(latest >= earliest, latest < 1<<62)))
	committed := vpI64("committed")
	vpAssume(vpAnd(committed >= -1, committed < 1<<62))
	fault := vpChoose("fault", 6)
	if fault == 1 {
		k.topics[0].parts[0].leader = -1
	}
	done := make(chan int64, 100)
	k.handle = func(q *vpReq) ([]byte, bool) {
		switch q.api {
		case 3:
			if fault == 1 {
				r := k.answer(q)
				fault = 0
				k.topics[0].parts[0].leader = 1
				return r, true
			}
		case 2:
			f := fault
			fault = 0
			switch f {
			case 2:
				return nil, true
			case 3:
				code := vpI16("code")
				vpAssume(code != 0)
				return vpOffsetsAnswer(q, code, earliest, latest), true
			}
			return vpOffsetsAnswer(q, 0, earliest, latest), true
		case 9:
			f := fault
			fault = 0
			switch f {
			case 4:
				return nil, true
			case 5:
				code := vpI16("code")
				vpAssume(code != 0)
				return vpOffsetFetchAnswer(q, -1, code), true
			}
			vpAssert(q.ver == uint16(cfg.OffsetsStorage) || q.ver == 1, "offset fetch version")
			return vpOffsetFetchAnswer(q, committed, 0), true
		case 1:
			f := vpParseFetch(q)
			done <- f.offset
			time.Sleep(500 * time.Millisecond)
			return vpFetchAnswer(q, f, 0, nil), true
		}
		return nil, false
	}
	k.install()
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	_, err = c.Consume(off, nil)
	vpAssert(err == nil, "consuming starts")
	got := <-done
	c.Stop()
	switch {
	case off >= 0:
		vpAssert(got == off, "the given offset is where consuming starts")
	case cfg.GroupID != "" && committed >= 0:
		vpAssert(got == committed, "the committed offset is where consuming starts")
	case off == -1:
		vpAssert(got == latest, "the latest offset is where consuming starts")
	default:
		vpAssert(got == earliest, "the earliest offset is where consuming starts")
	}
	vpReach("end")
}

// Any positive fetch.max.bytes, the first record does not fit in 1..2 fetches: the size asked for
// grows, stays positive and consuming goes on.
func VP_C10_grow() {
	vpDelays(0)
	vpMapOrder(1)
	log := []vpLogBatch{vpMkBatch(10, 10, 0, 10)}
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	if vpChoose("old", 2) == 1 {
		k.ranges = map[uint16][2]uint16{1: {0, 3}}
	}
	cfg := vpConsumerCfg()
	cfg.FetchMaxBytes = vpI32("max")
	vpAssume(cfg.FetchMaxBytes > 0)
	n := 1 + vpChoose("n", 2)
	last := cfg.FetchMaxBytes
	fetches := 0
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api != 1 {
			return nil, false
		}
		f := vpParseFetch(q)
		fetches++
		vpAssert(f.offset == 10 || fetches > n+1, "the same offset is asked for again")
		vpAssert(f.maxBytes > 0, "fetch.max.bytes stays positive")
		if fetches == 1 {
			vpAssert(f.maxBytes == last, "fetch.max.bytes is what was configured")
		} else if fetches <= n+1 {
			vpAssert(vpOr(f.maxBytes > last, f.maxBytes > 1<<30), "fetch.max.bytes grows when nothing fits")
		}
		last = f.maxBytes
		if fetches <= n {
			return vpFetchAnswer(q, f, 0, log[0].bytes[:len(log[0].bytes)-1]), true
		}
		if fetches > n+1 {
			time.Sleep(500 * time.Millisecond)
			return vpFetchAnswer(q, f, 0, nil), true
		}
		return vpFetchAnswer(q, f, 0, log[0].bytes), true
	}
	k.install()
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	ch, err := c.Consume(10, nil)
	vpAssert(err == nil, "consuming starts")
	m := vpRecv(ch)
	vpAssert(m.Error == nil && m.Message.Offset == 10, "the record is delivered once it fits")
	c.Stop()
	vpReach("end")
}

// The leader moves from node 1 to node 2 when the consumer's first or second request about the partition (list-offsets or fetch) arrives; node 1 refuses
// these from then on with code 3, 56, 6 or 9, is down, or does not answer, and metadata still name node 1 for 0 or 1 more lookups. The consumer, started at the latest, the earliest or a given offset, asks
// the new leader, delivers what comes and lets no connection leak.
func VP_C10_moved() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	x := vpI64("base")
	vpAssume(vpAnd(x >= 0, x < 1<<40))
	log := []vpLogBatch{vpMkBatch(x, x+1, 0, x, x+1)}
	k := &vpCluster{nodes: []int32{1, 2}, controller: 2, coord: 2, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	when, how, stale := vpChoose("when", 2), vpChoose("how", 6), vpChoose("stale", 2)
	off := [...]int64{-2, -1, x + 1}[vpChoose("start", 3)]
	moved := false
	seen := 0
	var nodes *vpNodes
	nodes = vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		switch q.api {
		case 3:
			if moved && stale > 0 {
				stale--
			} else if moved {
				k.topics[0].parts[0].leader = 2
			}
			return nil, false
		case 1, 2:
			if q.node == 1 {
				if seen == when {
					moved = true
					if how >= 4 {
						nodes.mode[1] = how - 3
						if how == 5 {
							q.conn.readErr = vpTimeoutErr{}
						}
						return nil, true
					}
				}
				seen++
			}
			if q.node == 1 == moved {
				code := [...]int16{3, 56, 6, 9}[how&3]
				if q.api == 2 {
					time.Sleep(5 * time.Second)
					return vpOffsetsAnswer(q, code, 0, 0), true
				}
				time.Sleep(5 * time.Second)
				return vpFetchAnswer(q, vpParseFetch(q), code, nil), true
			}
		}
		if q.api == 2 {
			return vpOffsetsAnswer(q, 0, x, x+1), true
		}
		if q.api == 1 {
			f := vpParseFetch(q)
			recs := vpLogFrom(log, f.offset, 9)
			if len(recs) == 0 || !moved {
				time.Sleep(500 * time.Millisecond)
				recs = nil
			}
			return vpFetchAnswer(q, f, 0, recs), true
		}
		return nil, false
	})
	k.install()
	cfg := vpConsumerCfg()
	cfg.BootstrapServers = vpNodeAddr(1) + "," + vpNodeAddr(2)
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	ch := make(chan *FullMessage)
	consume := make(chan struct{})
	go func() {
		c.Consume(off, ch)
		close(consume)
	}()
	want := x + 1
	if off == -2 {
		want = x
	}
	for ; want < x+2; want++ {
		m := vpRecvFor(ch, 200*time.Second)
		vpAssert(m.Error == nil && m.Message.Offset == want, "messages come in order from where consuming starts")
	}
	<-consume
	c.Stop()
	vpReach("end")
}
