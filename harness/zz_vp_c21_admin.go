package healer

// Every operation that is the controller's (create/delete topics, create partitions with and without assignment, describe/create/delete ACLs, list
// and alter reassignments, elect leaders), with any one-byte names and any numbers, on a cluster of three brokers of which any is the controller, or none that is
// known; the controller answers, refuses with an error code (at the innermost level), is down, is silent, or closes the connection inside
// the answer; it may have moved before a metadata refresh. Exactly one request is sent, to the controller, saying what was asked for; its answer is returned, and every failure is an error.
func VP_C21_controller() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2, 3}, controller: 1}
	k.apis = []uint16{0, 1, 2, 3, 19, 20, 29, 30, 31, 37, 43, 45, 46}
	k.ranges = map[uint16][2]uint16{19: {0, 0}, 20: {0, 0}, 29: {0, 0}, 30: {0, 0}, 31: {0, 0}, 37: {0, 0}, 43: {0, 0}, 45: {0, 0}, 46: {0, 0}}
	ctl := int32(1 + vpChoose("controller", 4))
	moved := vpChoose("moved", 2) == 1
	if !moved {
		k.controller = ctl
	}
	var op *vpAdmin
	var code int16
	cut, asked := 0, 0
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if q.api == 3 || q.api == 18 {
			return nil, false
		}
		asked++
		vpAssert(q.api == op.api && q.ver == 0 && q.node == k.controller, "the request goes to the controller")
		if op.flex {
			q.rd.u8()
		}
		w := &vpW{}
		op.want(w)
		vpAssert(vpEqBytes(q.raw[q.rd.o:], w.b), "the request says what was asked for")
		w = &vpW{}
		w.u32(q.corr)
		if op.flex {
			w.u8(0)
		}
		op.body(w, code)
		full := vpFrame(w.b)
		return full[:len(full)-cut], true
	})
	k.install()
	c, err := NewClient("nowhere:9092,"+vpNodeAddr(1), "c")
	vpAssert(err == nil, "the client is created")
	op = vpAdminOps(c.brokers, vpChoose("op", 11), vpAdminAny())
	if moved {
		k.controller = ctl
		c.RefreshMetadata()
	}
	good := ctl <= 3
	switch vpChoose("fault", 4) {
	case 1:
		n.mode[ctl] = 1 + vpChoose("silent", 2)
		good = false
	case 2:
		code = vpGroupCode("code", true)
		good = false
	case 3:
		cut = 1
		good = false
	}
	vpNoPanic("an administrative operation", func() {
		err = op.call(c)
	})
	vpAssert((err == nil) == good, "an operation succeeds exactly if the controller says so")
	vpAssert(asked == 1 || !good && asked == 0, "the controller is asked once")
	c.Close()
	vpAssert(k.open() == 0, "Close closes every connection")
	vpReach("end")
}

// The groups of three brokers (0..2 each, with any one-byte names), one of the brokers being down, silent, refusing with an error code or not known yet: every group
// is listed under its broker, or there is an error.
func VP_C21_listgroups() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2, 3}, controller: 1}
	k.apis = []uint16{3, 16}
	k.ranges = map[uint16][2]uint16{16: {0, 0}}
	names := map[int32][]string{}
	for i := int32(1); i <= 3; i++ {
		for j := vpChoose("groups", 3); j > 0; j-- {
			names[i] = append(names[i], vpStr("group", 1))
		}
	}
	var code int16
	at := int32(1 + vpChoose("at", 3))
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if q.api != 16 {
			return nil, false
		}
		w := &vpW{}
		w.u32(q.corr)
		if q.node == at {
			w.i16(code)
		} else {
			w.i16(0)
		}
		w.arr(false, len(names[q.node]))
		for _, g := range names[q.node] {
			w.str(false, g)
			w.str(false, "consumer")
		}
		return vpFrame(w.b), true
	})
	k.install()
	c, err := NewClient(vpNodeAddr(1), "c")
	vpAssert(err == nil, "the client is created")
	fault := vpChoose("fault", 4)
	switch fault {
	case 1, 2:
		n.mode[at] = fault
	case 3:
		code = vpGroupCode("code", true)
	}
	vpNoPanic("listing groups", func() {
		gs, err := c.ListGroups()
		vpAssert((err == nil) == (fault == 0), "groups are listed exactly if every broker lists its own")
		if err != nil {
			return
		}
		for i := int32(1); i <= 3; i++ {
			vpAssert(len(gs[i]) == len(names[i]), "every group is listed under its broker")
			for j := range gs[i] {
				vpAssert(j < len(names[i]) && gs[i][j].GroupID == names[i][j] && gs[i][j].ProtocolType == "consumer", "every group is listed under its broker")
			}
		}
		h := NewHelperFromBrokers(c.brokers, "c")
		vpAssert(len(h.GetGroups()) == len(names[1])+len(names[2])+len(names[3]), "the helper lists every group")
	})
	c.Close()
	vpReach("end")
}

// Two groups with any coordinators of three brokers are deleted; the lookup of the first or second, or its deletion is refused with any error code, its
// coordinator is down, silent, or unknown: each group is deleted at its own coordinator, by one request; a failure is an error.
func VP_C21_deletegroups() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1}
	k.apis = []uint16{3, 10, 42}
	k.ranges = map[uint16][2]uint16{10: {0, 0}, 42: {0, 0}}
	names := []string{"g" + vpStr("a", 1), "h" + vpStr("b", 1)}
	co := map[string]int32{}
	for _, s := range names {
		co[s] = int32(1 + vpChoose("coordinator", 4)) // 3: added since, 4: unknown
	}
	at := names[vpChoose("at", 2)]
	var findCode, delCode int16
	var deleted []string
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		r := &vpRd{b: q.raw, o: q.rd.o}
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 10:
			g := r.str()
			vpAssert(co[g] != 0, "the coordinator of the group is looked up")
			if g == at && findCode != 0 {
				w.i16(findCode)
				w.i32(-1)
				w.str(false, "")
				w.i32(-1)
			} else {
				w.i16(0)
				w.i32(co[g])
				w.str(false, vpNodeHost(co[g]))
				w.i32(9092)
			}
		case 42:
			vpAssert(r.i32() == 1, "a group is deleted at its coordinator")
			g := r.str()
			vpAssert(co[g] == q.node && r.o == len(q.raw), "a group is deleted at its coordinator")
			deleted = append(deleted, g)
			w.i32(0)
			w.arr(false, 1)
			w.str(false, g)
			if g == at {
				w.i16(delCode)
			} else {
				w.i16(0)
			}
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	})
	k.install()
	c, err := NewClient(vpNodeAddr(1), "c")
	vpAssert(err == nil, "the client is created")
	k.nodes = []int32{1, 2, 3}
	good := co[names[0]] < 4 && co[names[1]] < 4
	fault := vpChoose("fault", 5)
	switch fault {
	case 1, 2:
		vpAssume(co[at] == 2 || co[at] == 3)
		n.mode[co[at]] = fault
		good = false
	case 3:
		findCode = vpGroupCode("code", true)
		good = false
	case 4:
		delCode = vpGroupCode("code", true)
		good = false
	}
	vpNoPanic("deleting groups", func() {
		r, err := c.DeleteGroups(names)
		vpAssert((err == nil) == good, "groups are deleted exactly if their coordinators say so")
		if err == nil {
			vpAssert(len(r.Results) == 2 && r.Results[0].GroupID == names[0] && r.Results[1].GroupID == names[1], "there is a result for every group")
			vpAssert(len(deleted) == 2 && deleted[0] == names[0] && deleted[1] == names[1], "every group is deleted once")
		}
	})
	c.Close()
	vpReach("end")
}

// The configuration of a topic (any one-byte name), of a broker or of a broker's loggers (any of three, one of them new, or none that is known, a name that is not a number, or too large a one), of all or
// two keys; the broker is down, silent, or refuses with an error code: a broker is asked for its own, the controller for the others; the answer is returned, and every failure is an error.
func VP_C21_configs() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2}, controller: int32(1 + vpChoose("controller", 2))}
	k.apis = []uint16{3, 32}
	k.ranges = map[uint16][2]uint16{32: {0, 0}}
	kind := vpChoose("kind", 3)
	typ, num := [...]string{"topic", "broker", "broker_logger"}[kind], [...]int8{2, 4, 8}[kind]
	name, node := vpStr("name", 1), k.controller
	good := true
	if kind > 0 {
		node = int32(1 + vpChoose("node", 6))
		name = [...]string{"", "1", "2", "3", "4", "4294967297", "x"}[node]
		good = node <= 3
	}
	var keys []string
	if vpChoose("keys", 2) == 1 {
		keys = []string{"a" + vpStr("key", 1), "b"}
	}
	var code int16
	val := vpStr("value", 1)
	asked := 0
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if q.api != 32 {
			return nil, false
		}
		asked++
		vpAssert(q.node == node, "configurations are asked for where they are")
		w := &vpW{}
		w.arr(false, 1)
		w.i8(num)
		w.str(false, name)
		if keys == nil {
			w.arr(false, -1)
		} else {
			w.arr(false, 2)
			w.str(false, keys[0])
			w.str(false, keys[1])
		}
		vpAssert(vpEqBytes(q.raw[q.rd.o:], w.b), "the request says what was asked for")
		w = &vpW{}
		w.u32(q.corr)
		w.i32(0)
		w.arr(false, 1)
		w.i16(code)
		w.nstr(false, nil)
		w.i8(num)
		w.str(false, name)
		w.arr(false, 1)
		w.str(false, "k")
		w.nstr(false, &val)
		w.bool(false)
		w.bool(false)
		w.bool(false)
		return vpFrame(w.b), true
	})
	k.install()
	c, err := NewClient(vpNodeAddr(1), "c")
	vpAssert(err == nil, "the client is created")
	k.nodes = []int32{1, 2, 3}
	fault := vpChoose("fault", 4)
	switch fault {
	case 1, 2:
		vpAssume(node == 2 || node == 3)
		n.mode[node] = fault
		good = false
	case 3:
		code = vpGroupCode("code", true)
		good = false
	}
	vpNoPanic("describing configurations", func() {
		r, err := c.DescribeConfigs(typ, name, keys)
		vpAssert((err == nil) == good, "configurations are got exactly if the broker gives them")
		if err == nil {
			vpAssert(len(r.Resources) == 1 && r.Resources[0].ResourceName == name && len(r.Resources[0].ConfigEntries) == 1 && r.Resources[0].ConfigEntries[0].ConfigValue == val, "the answer is the broker's")
		}
	})
	vpAssert(asked <= 1, "one broker is asked once")
	c.Close()
	vpReach("end")
}

// The log directories of two topics or all of three, whose three partitions lie on any of three brokers (any of 7 sets of replicas each), every log directory holding a partition not asked for too: each broker is asked exactly for
// its replicas of the topics wanted, and what it says about those is returned under its id; a broker that does not answer is left out.
func VP_C21_logdirs() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2, 3}, controller: 1}
	k.apis = []uint16{3, 35}
	k.ranges = map[uint16][2]uint16{35: {0, 0}}
	type tp struct {
		t string
		p int32
	}
	parts := []tp{{"a", 0}, {"a", 1}, {"b", 0}, {"c", 0}}
	reps := map[tp][]int32{}
	for i, x := range parts {
		set := 1
		if i < 3 {
			set = 1 + vpChoose("replicas", 7)
		}
		for b := int32(0); b < 3; b++ {
			if set&(1<<b) != 0 {
				reps[x] = append(reps[x], b+1)
			}
		}
	}
	all := vpChoose("all", 2) == 1
	wanted := func(t string) bool { return all || t != "c" }
	size := vpI64("size")
	on := func(b int32) (r []tp) {
		for _, x := range parts {
			for _, y := range reps[x] {
				if y == b && wanted(x.t) {
					r = append(r, x)
				}
			}
		}
		return
	}
	asked := map[int32]int{}
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		r := &vpRd{b: q.raw, o: q.rd.o}
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 3:
			m := int(r.i32())
			if m == 0 && q.ver > 0 {
				return nil, false // no topics: at the bootstrap
			}
			vpAssert(all == (m <= 0), "the topics wanted are looked up")
			w.i32(0)
			w.arr(false, 3)
			for _, id := range k.nodes {
				w.i32(id)
				w.str(false, vpNodeHost(id))
				w.i32(9092)
				w.nstr(false, nil)
			}
			w.nstr(false, nil)
			w.i32(1)
			ts := []string{"a", "b"}
			if all {
				ts = []string{"a", "b", "c"}
			}
			w.arr(false, len(ts))
			for _, t := range ts {
				w.i16(0)
				w.str(false, t)
				w.bool(false)
				np := 0
				for _, x := range parts {
					if x.t == t {
						np++
					}
				}
				w.arr(false, np)
				for _, x := range parts {
					if x.t != t {
						continue
					}
					w.i16(0)
					w.i32(x.p)
					w.i32(reps[x][0])
					w.i32(0)
					w.i32s(false, reps[x])
					w.i32s(false, reps[x])
					w.i32s(false, nil)
				}
			}
		case 35:
			asked[q.node]++
			got := map[tp]bool{}
			nt := int(r.i32())
			for i := 0; i < nt; i++ {
				t := r.str()
				np := int(r.i32())
				for j := 0; j < np; j++ {
					got[tp{t, r.i32()}] = true
				}
			}
			vpAssert(!r.bad && r.o == len(q.raw), "the request is complete")
			have := on(q.node)
			vpAssert(len(got) == len(have), "a broker is asked for its replicas")
			w.i32(0)
			w.arr(false, 1)
			w.i16(0)
			w.str(false, "/d"+string(rune('0'+q.node)))
			w.arr(false, len(have)+1)
			w.str(false, "z") // one that was not asked for
			w.arr(false, 0)
			for _, x := range have {
				vpAssert(got[x], "a broker is asked for its replicas")
				w.str(false, x.t)
				w.arr(false, 1)
				w.i32(x.p)
				w.i64(size + int64(q.node))
				w.i64(0)
				w.bool(false)
			}
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	})
	k.install()
	c, err := NewClient(vpNodeAddr(1), "c")
	vpAssert(err == nil, "the client is created")
	silent := int32(0)
	if vpChoose("silent", 2) == 1 {
		silent = 2
	}
	var topics []string
	if !all {
		topics = []string{"a", "b"}
	} else if vpChoose("empty", 2) == 1 {
		topics = []string{}
	}
	// the connection to 2 is made before it falls silent
	_, err = c.brokers.GetBroker(2)
	vpAssert(err == nil, "the broker is reached")
	if silent != 0 {
		n.mode[silent] = 2
	}
	vpNoPanic("describing log directories", func() {
		rs, err := c.DescribeLogDirs(topics)
		vpAssert(err == nil, "log directories are got")
		for b := int32(1); b <= 3; b++ {
			have := on(b)
			r, ok := rs[b]
			if b == silent || len(have) == 0 {
				vpAssert(!ok, "only brokers that have replicas are there")
				continue
			}
			vpAssert(ok && asked[b] == 1 && len(r.Results) == 1 && r.Results[0].LogDir == "/d"+string(rune('0'+b)), "each broker's directories are returned under its id")
			i := 0
			for _, t := range r.Results[0].Topics {
				if all && t.TopicName == "z" {
					continue
				}
				for _, p := range t.Partitions {
					vpAssert(i < len(have) && t.TopicName == have[i].t && p.PartitionID == have[i].p && p.Size == size+int64(b), "what the broker says about the partitions wanted is returned")
					i++
				}
			}
			vpAssert(i == len(have), "what the broker says about the partitions wanted is returned")
		}
	})
	c.Close()
	vpReach("end")
}
