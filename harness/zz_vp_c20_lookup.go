package healer

import (
	"errors"
)

func vpInfoIs(b *Brokers, ids ...int32) bool {
	if len(b.BrokersInfo()) != len(ids) {
		return false
	}
	for _, id := range ids {
		i := b.BrokersInfo()[id]
		if i == nil || i.NodeID != id || i.NetAddress() != vpNodeAddr(id) {
			return false
		}
	}
	return true
}

// One or two bootstrap servers (three thorough), one of which is not named in the metadata by its own address, each
// of them: working, unknown host, refusing, closing the connection on the API versions or metadata request or inside the answer,
// silent, or answering with an error or without any broker; metadata version 1 or 7;
// any controller. The brokers and the controller are those the first working server names; if none works there
// is an error. Connections that are not needed are closed, and all are by Close, called once or twice.
func VP_C20_bootstrap() {
	vpDelays(0)
	vpMapOrder(1)
	ctl := vpI32("controller")
	k := &vpCluster{nodes: []int32{1, 2, 3, 9}, controller: ctl}
	listed := []int32{1, 2, 3} // 9 is another name of one of them
	ver := [...]int{1, 7}[vpChoose("ver", 2)]
	k.ranges = map[uint16][2]uint16{3: {0, uint16(ver)}}
	n := 1 + vpChoose("n", vpMax(2, 3))
	boot, good := "", int32(0)
	mode := map[int32]int{}
	for i := 0; i < n; i++ {
		id := []int32{9, 1, 2}[i]
		if i > 0 {
			boot += ","
		}
		m := vpChoose("mode", 9)
		mode[id] = m
		if m == 1 {
			boot += "nowhere:9092"
		} else {
			boot += vpNodeAddr(id)
		}
		if m == 0 && good == 0 {
			good = id
		}
	}
	k.dialErr = func(id int32) error {
		if mode[id] == 2 {
			return errors.New("connection refused")
		}
		return nil
	}
	k.handle = func(q *vpReq) ([]byte, bool) {
		m := mode[q.node]
		switch {
		case m == 3 && q.api == 18, m == 4 && q.api == 3:
			return nil, true
		case m == 5 && q.api == 3:
			k.nodes = listed
			full := k.answer(q)
			k.nodes = []int32{1, 2, 3, 9}
			return full[:len(full)-1], true
		case m == 6:
			q.conn.readErr = vpTimeoutErr{}
			return nil, true
		case m == 7 && q.api == 18:
			w := &vpW{}
			w.u32(q.corr)
			w.i16(35)
			w.arr(false, 0)
			return vpFrame(w.b), true
		case q.api == 3:
			if m == 8 {
				k.nodes = nil
			} else {
				k.nodes = listed
			}
			full := k.answer(q)
			k.nodes = []int32{1, 2, 3, 9}
			return full, true
		}
		return nil, false
	}
	k.install()
	b, err := NewBrokers(boot)
	vpAssert((err == nil) == (good != 0), "brokers are found exactly if one of the bootstrap servers works")
	if err != nil {
		vpAssert(b == nil && k.open() == 0, "connections to servers that do not work are closed")
	} else {
		vpAssert(vpInfoIs(b, 1, 2, 3), "the brokers are those the metadata names")
		vpAssert(b.Controller() == ctl, "the controller is the one the metadata names")
		last := k.log[len(k.log)-1]
		vpAssert(last.node == good && last.api == 3, "the first server that works is used")
		vpAssert(k.open() <= 1, "connections that are not needed are closed")
		for i := vpChoose("closes", 2); i >= 0; i-- {
			vpNoPanic("closing", b.Close)
		}
		vpAssert(k.open() == 0, "Close closes every connection")
	}
	vpReach("end")
}

// Three brokers in every order, each up, down or silent since the bootstrap, or answering with an error code (any of the group protocol or unknown, for
// coordinator requests): metadata, coordinator, leader or any other request asked of the cluster is answered exactly if one of them is up,
// with that broker's answer; when the brokers come back, it is answered again. A partition that has an error does not hide the leader
// of another one, and an answer that does not mention the topic is an error.
func VP_C20_failover() {
	vpDelays(0)
	k := &vpCluster{nodes: []int32{1, 2, 3}, controller: 1}
	lead, coord := vpI32("leader"), vpI32("coord")
	perr := [...]int16{0, 5, 1000}[vpChoose("perr", 3)]
	k.topics = []vpTopic{{"t", 0, []vpPart{{1, 9, perr}, {0, lead, 0}}}}
	k.coord = 1
	var code int16
	served := 0
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 10:
			r := &vpRd{b: q.raw, o: q.rd.o}
			vpAssert(r.str() == "g", "the coordinator of the group is asked for")
			if q.node == 2 && code != 0 {
				w.i16(code)
				w.i32(-1)
				w.str(false, "")
				w.i32(-1)
				return vpFrame(w.b), true
			}
			w.i16(0)
			w.i32(coord)
			w.str(false, "h")
			w.i32(9092)
		case 16:
			w.i32(0)
			w.i16(0)
			w.arr(true, 1)
			w.str(true, "g"+string(rune('0'+q.node)))
			w.str(true, "consumer")
			w.str(true, "Stable")
			w.str(true, "classic")
			w.u8(0)
			w.u8(0)
			served = int(q.node)
			// response header v1 (flexible)
			w.b = append(append(append([]byte{}, w.b[:4]...), 0), w.b[4:]...)
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	})
	k.apis = []uint16{0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 16, 17, 36}
	k.ranges = map[uint16][2]uint16{16: {0, 5}}
	k.install()
	b, err := NewBrokers(vpNodeAddr(1))
	vpAssert(err == nil, "the brokers are found")
	op := vpChoose("op", 5)
	vpAssume(perr == 0 || op == 2 || op == 3)
	up := false
	for i := int32(1); i <= 3; i++ {
		n.mode[i] = vpChoose("mode", 3)
		up = up || n.mode[i] == 0
	}
	if op == 1 && n.mode[2] == 0 && vpChoose("refuse", 2) == 1 {
		code = vpGroupCode("code", true)
		up = n.mode[1] == 0 || n.mode[3] == 0
	}
	for again := 0; again < 2; again++ {
		switch op {
		case 0:
			r, err := b.RequestMetaData("c", []string{"t"})
			vpAssert((err == nil) == up, "metadata is got exactly if a broker is up")
			if err == nil {
				vpAssert(len(r.TopicMetadatas) == 1 && len(r.TopicMetadatas[0].PartitionMetadatas) == 2, "the metadata is the one sent")
				for _, p := range r.TopicMetadatas[0].PartitionMetadatas {
					vpAssert(p.PartitionID == 1 || p.Leader == lead, "the metadata is the one sent")
				}
			}
		case 1:
			r, err := b.FindCoordinator("c", "g")
			vpAssert((err == nil) == up, "the coordinator is found exactly if a broker is up")
			if err == nil {
				vpAssert(r.Coordinator.NodeID == coord, "the coordinator is the one named")
			}
		case 2, 3:
			p := int32(0)
			if op == 3 {
				p = 7
			}
			l, err := b.findLeader("c", "t", p)
			vpAssert((err == nil) == (up && p == 0), "the leader is found exactly if a broker is up and there is such a partition")
			if err == nil {
				vpAssert(l == lead, "the leader is the one of the partition")
			}
		case 4:
			r, err := b.Request(NewListGroupsRequest("c"))
			vpAssert((err == nil) == up, "a request is answered exactly if a broker is up")
			if err == nil {
				l := r.(*ListGroupsResponse)
				vpAssert(len(l.Groups) == 1 && l.Groups[0].GroupID == "g"+string(rune('0'+served)), "the answer is the one given")
			}
		}
		n.mode = map[int32]int{}
		up = true
		vpMapOrder(1)
	}
	b.Close()
	vpAssert(k.open() == 0, "Close closes every connection")
	vpReach("end")
}

// The offset of one partition or of all three of a topic, led by any of three brokers each, asked for any time; a leader being down, silent, or answering with any
// error code, or the broker being unknown so far: each leader is asked once, for its own partitions and that time, and every partition's offset is the one
// its leader says; an error is reported, never hidden. A topic without partitions, and an answer without the topic, are no panic.
func VP_C20_offsets() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1}
	lead := [3]int32{}
	var offs [3]int64
	t := vpTopic{name: "t"}
	ver := uint16(vpChoose("ver", 2))
	for i := 0; i < 3; i++ {
		lead[i] = int32(1 + vpChoose("leader", 3))
		offs[i] = vpI64("offset")
	}
	for i := 0; i < 3; i++ {
		p := i
		if ver == 1 {
			p = 2 - i
		}
		t.parts = append(t.parts, vpPart{int32(p), lead[p], 0})
	}
	k.topics = []vpTopic{t}
	what := int32(vpChoose("partition", 5)) - 1 // all, 0..2, none
	when := vpI64("time")
	k.ranges = map[uint16][2]uint16{2: {0, ver}}
	fault, code := int32(-1), int16(0)
	asked := map[int32]int{}
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if q.api != 2 {
			return nil, false
		}
		r := &vpRd{b: q.raw, o: q.rd.o}
		r.i32()
		vpAssert(r.i32() == 1 && r.str() == "t", "the topic is asked for")
		w := &vpW{}
		w.u32(q.corr)
		w.arr(false, 1)
		w.str(false, "t")
		np := int(r.i32())
		w.arr(false, np)
		for i := 0; i < np; i++ {
			p := r.i32()
			vpAssert(p >= 0 && p < 3 && lead[p] == q.node, "a broker is asked for the partitions it leads")
			vpAssert(what < 0 || p == what, "only the partition wanted is asked for")
			vpAssert(r.i64() == when, "the time wanted is asked for")
			asked[p]++
			if ver == 0 {
				r.i32()
			}
			w.i32(p)
			if p == fault {
				w.i16(code)
			} else {
				w.i16(0)
			}
			if ver == 0 {
				w.arr(false, 1)
				w.i64(offs[p])
			} else {
				w.i64(-1)
				w.i64(offs[p])
			}
		}
		vpAssert(!r.bad && r.o == len(q.raw), "the request is complete")
		return vpFrame(w.b), true
	})
	k.install()
	b, err := NewBrokers(vpNodeAddr(1))
	vpAssert(err == nil, "the brokers are found")
	k.nodes = []int32{1, 2, 3} // a third one has been added
	bad := what >= 3
	involved := func(p int32) bool { return what < 0 || what == p }
	switch vpChoose("fault", 4) {
	case 1, 2: // a leader other than 1 is down or silent
		f := int32(2 + vpChoose("down", 2))
		n.mode[f] = 1 + vpChoose("silent", 2)
		for p := int32(0); p < 3; p++ {
			bad = bad || involved(p) && lead[p] == f
		}
	case 3:
		fault, code = int32(vpChoose("errpart", 3)), [...]int16{6, 1000}[vpChoose("code", 2)]
		bad = bad || involved(fault)
	}
	rs, err := b.RequestOffsets("c", "t", what, when, 1)
	vpAssert((err != nil) == bad, "offsets are got exactly if every leader gives them")
	if err == nil {
		got := 0
		for _, r := range rs {
			for name, ps := range r.TopicPartitionOffsets {
				for _, p := range ps {
					got++
					vpAssert(name == "t" && involved(p.Partition) && int64(p.GetOffset()) == offs[p.Partition], "each partition's offset is what its leader says")
				}
			}
		}
		vpAssert(got == 1 || what < 0 && got == 3, "there is one offset for each partition wanted")
		for p := int32(0); p < 3; p++ {
			vpAssert(asked[p] == 1 == involved(p), "each partition is asked for once")
		}
	}
	b.Close()
	vpReach("end")
}

// An answer to a metadata request that has no topic, or a topic without partitions: an error, not a panic.
func VP_C20_empty() {
	vpDelays(0)
	k := &vpCluster{nodes: []int32{1}, controller: 1}
	terr := [...]int16{0, 3, 1000}[vpChoose("terr", 3)]
	none := vpChoose("none", 2) == 1
	k.topics = []vpTopic{{name: "t", err: terr}}
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api == 3 && none {
			w := &vpW{}
			w.u32(q.corr)
			k.metadata(w, q.ver, 0, nil)
			return vpFrame(w.b), true
		}
		return nil, false
	}
	k.install()
	b, err := NewBrokers(vpNodeAddr(1))
	vpAssert(err == nil, "the brokers are found")
	vpNoPanic("looking up a topic that is not there", func() {
		_, err := b.findLeader("c", "t", 0)
		vpAssert(err != nil, "a partition that is not there has no leader")
		_, err = b.RequestOffsets("c", "t", 0, -1, 1)
		vpAssert(err != nil, "a partition that is not there has no offset")
		rs, err := b.RequestOffsets("c", "t", -1, -1, 1)
		vpAssert(err != nil || len(rs) == 0, "a topic that is not there has no offsets")
	})
	vpReach("end")
}

// A broker that was not known at the bootstrap (a node added since, which may also be the controller now) is looked up - by GetBroker, NewBroker,
// or as controller - while the bootstrap servers and the known brokers are up, down or silent, with metadata version 1 or 7: it is found exactly if one of those or
// of the bootstrap servers is up, and itself; the broker returned is that very one. No connection stays open but those in use.
func VP_C20_newnode() {
	vpDelays(0)
	if vpTier() == 0 {
		vpMapOrder(1)
	}
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	ver := [...]uint16{1, 7}[vpChoose("ver", 2)]
	k.ranges = map[uint16][2]uint16{3: {0, ver}}
	n := vpNewNodes(k, nil)
	k.install()
	b, err := NewBrokers("nowhere:9092," + vpNodeAddr(1))
	vpAssert(err == nil, "the brokers are found")
	k.nodes = []int32{1, 2, 3}
	k.controller = 3
	up := false
	for i := int32(1); i <= 2; i++ {
		n.mode[i] = vpChoose("mode", 3)
		up = up || n.mode[i] == 0
	}
	n.mode[3] = vpChoose("mode3", 3)
	want := int32(3 + vpChoose("want", 2))
	var x *Broker
	op := vpChoose("op", 2)
	if op == 0 {
		x, err = b.GetBroker(want)
	} else {
		x, err = b.NewBroker(want)
	}
	vpAssert((err == nil) == (up && want == 3 && n.mode[3] == 0), "a new broker is found exactly if it is up and another one names it")
	if err == nil {
		vpAssert(x.GetAddress() == vpNodeAddr(3), "the broker is the one wanted")
		at := len(k.log)
		_, err = x.requestMetaData("c", []string{"t"})
		vpAssert(len(k.log) > at && k.log[len(k.log)-1].node == 3, "its requests go to it")
		if op == 0 {
			y, err := b.GetBroker(3)
			vpAssert(err == nil && x == y, "the broker is kept")
		}
		vpAssert(vpInfoIs(b, 1, 2, 3), "the brokers are those of the new metadata")
		vpAssert(b.Controller() == 3, "the controller is the one of the new metadata")
		c, err := b.GetController()
		vpAssert(err == nil && c.GetAddress() == vpNodeAddr(3), "the controller is the broker")
		if op == 1 {
			x.Close()
		}
	} else if want == 3 && up {
		vpAssert(vpInfoIs(b, 1, 2, 3), "the brokers are those of the new metadata")
	} else if !up {
		vpAssert(vpInfoIs(b, 1, 2), "without new metadata the old is kept")
	}
	b.Close()
	vpAssert(k.open() == 0, "no connection is left open")
	vpReach("end")
}

// Two goroutines ask for the same or different brokers at the same time, one of which may be new, and use them: all schedules with at most
// two preemptions. Both get the broker they want; there is one per node.
func VP_C20_share() {
	vpDelays(0)
	vpPreempt(2)
	vpMapOrder(1)
	lead := vpI32("leader")
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, lead, 0}}}}}
	k.install()
	b, err := NewBrokers(vpNodeAddr(1))
	vpAssert(err == nil, "the brokers are found")
	k.nodes = []int32{1, 2, 3}
	want := [2]int32{int32(2 + vpChoose("a", 2)), int32(1 + vpChoose("b", 3))}
	var got [2]*Broker
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() {
			x, err := b.GetBroker(want[i])
			vpAssert(err == nil && x.GetAddress() == vpNodeAddr(want[i]), "the broker is the one wanted")
			got[i] = x
			if err == nil {
				r, err := x.requestMetaData("c", []string{"t"})
				vpAssert(err == nil && len(r.TopicMetadatas) == 1 && r.TopicMetadatas[0].PartitionMetadatas[0].Leader == lead, "its answer is its own")
			}
			done <- true
		}()
	}
	<-done
	<-done
	vpAssert((got[0] == got[1]) == (want[0] == want[1]), "there is one broker for each node")
	b.Close()
	vpAssert(k.open() == 0, "no connection is left open")
	vpReach("end")
}
