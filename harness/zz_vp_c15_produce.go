package healer

import (
	"context"
	"errors"
	"time"
)

// A SimpleProducer through every sequence of 4 operations (5 thorough: AddMessage, Flush, the flush interval passing,
// the leader moving), message.max.count 1..3, with the first or second produce request failing in
// one of these ways: any error code, the connection lost before or after the batch was written. Keys and
// values are any bytes. After every operation exactly the messages that have to be at the broker
// are there, in order, once; an operation that sends a batch fails exactly when the batch has not been acknowledged;
// after Close everything is there, adding fails, and nothing is sent any more.
func VP_C15_history() {
	vpMapOrder(1)
	vpDelays(0)
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	st := vpNewStore(k)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 1 + vpChoose("max", 3)
	bad := vpChoose("bad", 3) // the produce request that fails, 0: none
	how := 0
	var code int16
	if bad > 0 {
		how = vpChoose("how", 4)
		if how == 0 {
			code = vpI16("code")
			vpAssume(code != 0)
		}
	}
	var want []vpSentRec    // what has to be at the broker
	var pending []vpSentRec // what is buffered
	n, failed := 0, false
	st.event = func(q *vpReq, s vpSent) (int16, bool, bool) {
		n++
		failed = false
		if n != bad {
			want = append(want, pending...)
			pending = nil
			return 0, true, true
		}
		failed = true
		switch how {
		case 0: // refused; a partition that moved may be found again with another request
			vpAssert(vpSameRecs(s.recs, pending), "a refused batch holds what was buffered")
			return code, false, true
		case 1: // written, answer lost
			want = append(want, pending...)
		}
		// lost
		q.conn.onWrite = func(*vpConn, []byte) error { return errors.New("connection reset") }
		if how == 3 {
			q.conn.readErr = vpTimeoutErr{}
		}
		return 0, how == 1, false
	}
	p, err := NewSimpleProducer(context.Background(), "t", 0, cfg)
	vpAssert(err == nil, "a producer is created")
	if err != nil {
		return
	}
	check := func() { vpAssert(vpSameRecs(st.recs[0], want), "exactly the messages due are at the broker, in order") }
	result := func(err error, what string) {
		if failed {
			vpAssert(err != nil, what+" reports that its batch was not acknowledged")
			pending = nil
		} else {
			vpAssert(err == nil, what+" succeeds when its batch was acknowledged")
			vpAssert(len(pending) == 0, what+" sends what is due")
		}
		failed = false
	}
	steps := vpMax(4, 5)
	for i := 0; i < steps; i++ {
		switch vpChoose("op", 4) {
		case 0:
			key, val := vpBytes("key", i%2), vpBytes("val", 1)
			if i == 2 {
				key = nil
			}
			sent := n
			pending = append(pending, vpSentRec{key, val})
			due := len(pending) >= cfg.MessageMaxCount
			err := p.AddMessage(key, val)
			if due {
				result(err, "AddMessage")
			} else {
				vpAssert(err == nil, "AddMessage buffers")
				vpAssert(n == sent, "messages are sent in batches")
			}
		case 1:
			err := p.Flush()
			result(err, "Flush")
		case 2:
			time.Sleep(time.Duration(cfg.FlushIntervalMS)*time.Millisecond + time.Millisecond)
			vpWaitIdle()
			if failed {
				pending = nil
				failed = false
			}
			vpAssert(len(pending) == 0, "messages are sent when the flush interval has passed")
		case 3:
			k.topics[0].parts[0].leader = 3 - k.topics[0].parts[0].leader
		}
		check()
	}
	p.Close()
	if failed {
		pending = nil
	}
	vpAssert(len(pending) == 0, "Close sends what is buffered")
	check()
	reqs := len(k.of(0))
	vpAssert(p.AddMessage(nil, []byte("x")) == ErrProducerClosed, "a closed producer refuses messages")
	p.Flush()
	time.Sleep(time.Second)
	vpWaitIdle()
	vpAssert(len(k.of(0)) == reqs, "a closed producer sends nothing")
	vpNoPanic("closing twice", func() { p.Close() })
	for _, c := range k.conns {
		vpAssert(c.closed, "a closed producer keeps no connection open")
	}
	vpReach("end")
}

// Any acks setting, two messages sent one by one, then a connection that breaks: the request carries the
// setting; with 0 nothing is waited for (the broker sends nothing), and a failing write is still reported.
func VP_C15_acks() {
	vpMapOrder(1)
	vpDelays(0)
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	st := vpNewStore(k)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 1
	cfg.Acks = []int16{-1, 0, 1}[vpChoose("acks", 3)]
	var last *vpConn
	st.event = func(q *vpReq, s vpSent) (int16, bool, bool) {
		vpAssert(s.acks == cfg.Acks, "the request asks for the configured acknowledgements")
		last = q.conn
		if s.acks == 0 { // nothing to read: a read would time out
			q.conn.readErr = vpTimeoutErr{}
		}
		return 0, true, true
	}
	p, err := NewSimpleProducer(context.Background(), "t", 0, cfg)
	vpAssert(err == nil, "a producer is created")
	var want []vpSentRec
	for i := 0; i < 2; i++ {
		v := vpBytes("val", 1)
		want = append(want, vpSentRec{nil, v})
		vpAssert(p.AddMessage(nil, v) == nil, "AddMessage succeeds")
		vpAssert(vpSameRecs(st.recs[0], want), "the message is at the broker")
	}
	n := len(k.conns)
	vpAssert(p.AddMessage(nil, []byte("x")) == nil, "AddMessage succeeds")
	vpAssert(len(k.conns) == n, "the connection is kept")
	last.onWrite = func(*vpConn, []byte) error { return errors.New("connection reset") }
	vpAssert(p.AddMessage(nil, []byte("x")) != nil, "a failing write is reported")
	want = append(st.recs[0], vpSentRec{nil, []byte("y")})
	vpAssert(p.AddMessage(nil, []byte("y")) == nil, "the producer goes on after a failing write")
	vpAssert(vpSameRecs(st.recs[0], want), "the message is at the broker")
	p.Close()
	vpReach("end")
}
