package healer

import (
	"errors"
	"time"
)

// A group consumer, leader or follower in its group, takes a message, is then disturbed, takes the other messages and is closed.
// Disturbances: a heartbeat refused with any error code of the group protocol or unknown to healer, or not answered; the coordinator moved or dead; a
// rebalance that takes one of the two partitions away; a partition added. The join or sync that follows is perhaps
// refused with such a code or not answered. Any base offset.
func VP_C22_rebalance() {
	vpDelays(0)
	vpSelects(1)
	vpMapOrder(1)
	x := vpI64("base")
	vpAssume(vpAnd(x >= 0, x < 1<<40))
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, coord: 2, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}, {id: 1, leader: 1}}}}}
	g := vpNewGroup(k, x, 2)
	cfg := vpGroupCfg()
	cfg.MetadataMaxAgeMS = 10000
	g.session = 6 * time.Second
	g.lead = vpChoose("lead", 2) == 1
	g.give = []int32{0, 1}
	k.install()
	c, err := NewGroupConsumer("t", cfg)
	vpAssert(err == nil, "the consumer is created")
	ch := make(chan *FullMessage)
	_, err = c.Consume(ch)
	vpAssert(err == nil, "consuming starts")
	g.take(ch, 1, true)

	events := 6
	if g.lead {
		events = 7
	}
	ev := vpChoose("event", events)
	left := 3
	pending := true // the disturbance is still to come
	second := 0
	if ev > 0 {
		second = vpChoose("second", 4)
	}
	once := true
	g.event = func(q *vpReq) (int16, bool) {
		switch {
		case pending && q.api == 12 && ev == 1:
			pending = false
			code := vpGroupCode("code", true)
			if code == 25 { // commits of a member that is not known are refused
				once = false
			}
			return code, false
		case pending && q.api == 12 && ev == 2:
			pending = false
			return 0, true
		case pending && q.api == 12 && ev == 5:
			pending = false
			g.give = []int32{1}
			g.others = []string{"a"} // the range strategy gives the first partition to the first member
			return 27, false
		case !pending && second == 1 && q.api == 11, !pending && second == 2 && q.api == 14:
			second = 0
			code := vpGroupCode("code2", false)
			return code, false
		case !pending && second == 3 && q.api == 14:
			second = 0
			return 0, true
		}
		return 0, false
	}
	joins := g.joins
	switch ev {
	case 3: // the coordinator moves
		k.coord = 1
		pending = false
		once = false // commits to the old one are refused
	case 4: // the coordinator dies
		k.coord = 1
		pending = false
		once = false
		for i, cn := range k.conns {
			if k.dials[i] == 2 {
				cn.onWrite = func(*vpConn, []byte) error { return errors.New("broken pipe") }
			}
		}
		k.dialErr = func(id int32) error {
			if id == 2 {
				return errors.New("no route to host")
			}
			return nil
		}
	case 6:
		k.topics[0].parts = append(k.topics[0].parts, vpPart{id: 2, leader: 1})
		g.logs[2] = []vpLogBatch{vpMkBatch(x, x+1, 0, x, x+1)}
		g.committed[2] = -1
		g.taken[2] = x
		pending = false
		left = 5
	}
	if ev == 6 {
		g.take(ch, 3, true)
		time.Sleep(11 * time.Second)
		g.take(ch, 2, true)
		vpAssert(g.joins > joins, "the leader rebalances when the partitions change")
	} else if ev == 5 {
		// let it happen before taking more
		time.Sleep(3 * time.Second)
		vpWaitIdle()
		vpAssert(g.joins > joins, "a refused heartbeat makes the member join again")
		var p int32 = 1
		n := int(g.logs[p][0].last + 1 - g.taken[p])
		g.take(ch, vpPick(n), true)
		vpAssert(!g.assigned[0], "a partition is given up")
	} else {
		if ev > 0 {
			time.Sleep(3 * time.Second)
			vpWaitIdle()
		}
		g.take(ch, left, once)
		if ev > 0 {
			time.Sleep(3 * time.Second)
			vpAssert(g.joins > joins, "a disturbed member joins again")
		}
	}
	beats := g.beats
	time.Sleep(2 * time.Second)
	vpAssert(g.beats > beats, "heartbeats go on")
	c.Close()
	g.over = true
	vpAssert(g.gone && g.leaves == 1, "a closed member leaves the group")
	for p, t := range g.taken {
		if ev == 5 && p == 0 {
			continue
		}
		vpAssert(g.committed[p] == t, "what was delivered is committed when Close returns")
	}
	time.Sleep(70 * time.Second)
	vpWaitIdle()
	vpReach("end")
}

// A group consumer is closed at the moment it starts, while or just when its join or sync is answered, or while consuming
// (a message waiting for the user or not): every schedule with one deviation from round-robin at blocking points and one preemption at
// any synchronisation point (two each thorough), also while a rebalance is under way. Close returns, nothing panics, nothing is sent or delivered afterwards, and
// a member that is not just rejoining leaves.
func VP_C22_close() {
	vpDelays(0)
	vpMapOrder(1)
	vpSelects(1)
	x := vpI64("base")
	vpAssume(vpAnd(x >= 0, x < 1<<40))
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	g := vpNewGroup(k, x, 1)
	cfg := vpGroupCfg()
	g.session = 6 * time.Second
	g.lead = false
	g.give = []int32{0}
	var beaten bool
	g.event = func(q *vpReq) (int16, bool) {
		if q.api == 11 || q.api == 14 {
			time.Sleep(time.Second)
		}
		if q.api == 12 && !beaten {
			beaten = true
			return 27, false
		}
		return 0, false
	}
	k.install()
	c, err := NewGroupConsumer("t", cfg)
	vpAssert(err == nil, "the consumer is created")
	ch := make(chan *FullMessage)
	at := vpChoose("at", 7)
	beaten = true
	if at >= 5 {
		beaten = vpChoose("rebalance", 2) == 0
	}
	quiet := beaten
	go func() {
		vpNoPanic("consuming while being closed", func() { c.Consume(ch) })
	}()
	time.Sleep(time.Millisecond) // Consume has begun
	time.Sleep(time.Duration(at) * 500 * time.Millisecond)
	took := 0
	if at >= 5 && vpChoose("take", 2) == 1 {
		g.take(ch, 1, true)
		took = 1
	}
	if at == 6 { // to the next heartbeat at 3.6 s, or into the rebalance it has caused
		time.Sleep(600 * time.Millisecond)
		if !beaten {
			time.Sleep(time.Duration(vpChoose("more", 5)) * 500 * time.Millisecond)
		}
	}
	vpDelays(vpMax(1, 2))
	vpPreempt(vpMax(1, 2))
	done := make(chan bool)
	go func() {
		vpNoPanic("closing", func() { c.Close() })
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		vpAssert(false, "Close returns")
	}
	vpDelays(0)
	vpPreempt(0)
	g.over = true
	if took == 1 {
		vpAssert(g.committed[0] == x+1, "what was delivered is committed when Close returns")
	}
	if at >= 5 && quiet {
		vpAssert(g.gone, "a closed member leaves the group")
	}
	select {
	case <-ch:
		vpAssert(false, "nothing is delivered after Close has returned")
	case <-time.After(70 * time.Second):
	}
	vpReach("end")
}

// A group consumer starts while things go wrong: up to two of the first coordinator lookups, joins and syncs are refused (any code of the
// group protocol, or unknown) or not answered, one of the partitions may have no leader for a while, the other one
// may have a committed offset. It is member and has consumed everything from there on in the end.
func VP_C22_start() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	x := vpI64("base")
	vpAssume(vpAnd(x >= 0, x < 1<<40))
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, coord: 2, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}, {id: 1, leader: 2}}}}}
	g := vpNewGroup(k, x, 2)
	cfg := vpGroupCfg()
	g.session = 6 * time.Second
	g.lead = vpChoose("lead", 2) == 1
	g.give = []int32{0, 1}
	noleader := vpChoose("noleader", 2) == 1
	if noleader {
		k.topics[0].parts[1] = vpPart{id: 1, leader: -1, err: 5}
	}
	n := 4
	if vpChoose("committed", 2) == 1 {
		g.committed[0] = x + 1
		g.taken[0] = x + 1
		n--
	}
	faults := 2
	fault := func(api uint16) (int16, bool) {
		if faults == 0 {
			return 0, false
		}
		switch vpChoose("fault", 3) {
		case 1:
			faults--
			return vpGroupCode("code", false), false
		case 2:
			faults--
			return 0, true
		}
		faults = 0
		return 0, false
	}
	g.event = func(q *vpReq) (int16, bool) {
		if q.api == 11 || q.api == 14 {
			return fault(q.api)
		}
		return 0, false
	}
	looked := 0
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api == 10 {
			looked++
			if looked == 1 {
				if code, drop := fault(q.api); drop {
					return nil, true
				} else if code != 0 {
					w := &vpW{}
					w.u32(q.corr)
					w.i16(code)
					w.i32(-1)
					w.str(false, "")
					w.i32(-1)
					return vpFrame(w.b), true
				}
			}
		}
		return g.handle(q)
	}
	k.install()
	c, err := NewGroupConsumer("t", cfg)
	vpAssert(err == nil, "the consumer is created")
	ch := make(chan *FullMessage)
	_, err = c.Consume(ch)
	vpAssert(err == nil, "consuming starts")
	if noleader {
		g.take(ch, n-2, true)
		k.topics[0].parts[1] = vpPart{id: 1, leader: 2}
		n = 2
	}
	g.take(ch, n, true)
	vpAssert(g.synced, "the consumer is a member of the group")
	c.Close()
	vpAssert(g.gone, "a closed member leaves the group")
	vpAssert(vpAnd(g.committed[0] == x+2, g.committed[1] == x+2), "what was delivered is committed when Close returns")
	vpReach("end")
}
