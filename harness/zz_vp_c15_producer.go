package healer

import (
	"context"
	"time"
)

// A Producer on a topic with two partitions led by different brokers (one of them perhaps without leader from the start),
// through every sequence of 4 operations: add a message without key, add one with any one-byte key, let metadata.max.age
// pass, let the leaders change places; message.max.count 1 or 2; then Close. Random choices of a partition are
// any choice.
func VP_C15_producer() {
	vpMapOrder(1)
	vpDelays(0)
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}, {id: 1, leader: 2}}}}}
	down := vpChoose("down", 2) == 1
	if down {
		k.topics[0].parts[1] = vpPart{id: 1, leader: -1, err: 5}
	}
	st := vpNewStore(k)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 1 + vpChoose("max", 2)
	cfg.MetadataMaxAgeMS = 1000
	p, err := NewProducer("t", cfg)
	vpAssert(err == nil, "a producer is created")
	m := &vpMsgs{}
	for i := 0; i < 4; i++ {
		switch vpChoose("op", 4) {
		case 0:
			n, v := m.next(nil)
			m.errs[n] = p.AddMessage(nil, v)
			vpAssert(m.errs[n] == nil, "a message without key is accepted")
		case 1:
			key := vpBytes("key", 1)
			n, v := m.next(key)
			m.errs[n] = p.AddMessage(key, v)
			if !down {
				vpAssert(m.errs[n] == nil, "a message with a key is accepted")
			}
		case 2:
			time.Sleep(1001 * time.Millisecond)
			vpWaitIdle()
		case 3:
			if !down {
				ps := k.topics[0].parts
				ps[0].leader, ps[1].leader = ps[1].leader, ps[0].leader
			}
		}
	}
	p.Close()
	m.check(st, true)
	vpAssert(p.AddMessage(nil, []byte{0, 0}) == ErrProducerClosed, "a closed producer refuses messages")
	vpAssert(p.AddMessage([]byte("k"), []byte{0, 0}) == ErrProducerClosed, "a closed producer refuses messages with a key")
	n := len(k.log)
	time.Sleep(5 * time.Second)
	vpWaitIdle()
	vpAssert(len(k.log) == n, "a closed producer sends nothing")
	vpNoPanic("closing twice", func() { p.Close() })
	for _, c := range k.conns {
		vpAssert(c.closed, "a closed producer keeps no connection open")
	}
	vpReach("end")
}

// Two goroutines add a message each to a SimpleProducer at the moment its flush interval passes, and a third one
// closes or flushes it: every schedule with at most one preemption (two thorough) and one (two) deviations from
// round-robin at blocking points, message.max.count 1..2.
func VP_C15_adders() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	st := vpNewStore(k)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 1 + vpChoose("max", 2)
	p, err := NewSimpleProducer(context.Background(), "t", 0, cfg)
	vpAssert(err == nil, "a producer is created")
	closing := vpChoose("close", 2) == 1
	m := &vpMsgs{}
	done := make(chan bool)
	d := time.Duration(cfg.FlushIntervalMS) * time.Millisecond
	for i := 0; i < 2; i++ {
		n, v := m.next(nil)
		go func() {
			time.Sleep(d)
			m.errs[n] = p.AddMessage(nil, v)
			done <- true
		}()
	}
	go func() {
		time.Sleep(d)
		if closing {
			p.Close()
		} else {
			vpAssert(p.Flush() == nil, "Flush succeeds")
		}
		done <- true
	}()
	vpDelays(vpMax(1, 2))
	vpPreempt(vpMax(1, 2))
	<-done
	<-done
	<-done
	vpPreempt(0)
	vpDelays(0)
	p.Close()
	for _, e := range m.errs {
		vpAssert(e == nil || closing && e == ErrProducerClosed, "a message is accepted or the producer is closed")
	}
	m.check(st, false)
	vpReach("end")
}

// A Producer to which one goroutine adds a message without and one with a key while its metadata is being refreshed (thorough: also at the first, second or
// third connection made for it) and
// another goroutine closes it or adds a message with a key: every schedule with at most one preemption (two thorough) and one
// delay of a ready goroutine.
func VP_C15_refresh() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	st := vpNewStore(k)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 2
	cfg.FlushIntervalMS = 100000
	cfg.MetadataMaxAgeMS = 1000
	p, err := NewProducer("t", cfg)
	vpAssert(err == nil, "a producer is created")
	closing := vpChoose("close", 2) == 1
	at := 500 * time.Millisecond
	if n := vpChoose("late", vpMax(1, 4)); n > 0 {
		at += time.Duration(n) * 10 * time.Millisecond
		k.dialErr = func(int32) error { time.Sleep(10 * time.Millisecond); return nil }
	}
	m := &vpMsgs{}
	done := make(chan bool)
	a, va := m.next(nil)
	b, vb := m.next([]byte{1})
	c, vc := m.next([]byte{2})
	time.Sleep(500 * time.Millisecond)
	go func() {
		time.Sleep(at)
		m.errs[a] = p.AddMessage(nil, va)
		m.errs[b] = p.AddMessage([]byte{1}, vb)
		done <- true
	}()
	go func() {
		time.Sleep(at)
		if closing {
			p.Close()
		} else {
			m.errs[c] = p.AddMessage([]byte{2}, vc)
		}
		done <- true
	}()
	vpDelays(1)
	vpPreempt(vpMax(1, 2))
	<-done
	<-done
	vpPreempt(0)
	vpDelays(0)
	p.Close()
	time.Sleep(5 * time.Second)
	vpWaitIdle()
	for i, e := range m.errs {
		vpAssert(e == nil || closing && e == ErrProducerClosed, "a message is accepted or the producer is closed")
		vpAssert(closing || e == nil || i == c, "messages are accepted by an open producer")
	}
	m.check(st, false)
	vpReach("end")
}
