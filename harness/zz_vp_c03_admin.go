package healer

// CreateTopics v0: 0..2 topics (name 0..2 bytes, distinct), any partition count,
// replication factor and timeout, 0..2 replica assignments in any order (the same
// partition twice: the later one replaces the earlier one) of 0..2 replicas, 0..2 configs.
func VP_C03_create_topics() {
	client := vpS("client", 1)
	timeout := vpU32("timeout")
	r := NewCreateTopicsRequest(client, timeout)
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(19, 0, corr, &client, false)
	nt := vpN("topics", 2)
	w.arr(false, nt)
	var names []string
	for i := 0; i < nt; i++ {
		name := vpS("name", 2)
		for _, n := range names {
			vpAssume(n != name)
		}
		names = append(names, name)
		np, rf := vpI32("parts"), vpI16("rf")
		err := r.AddTopic(name, np, rf)
		vpAssert(err == nil, "CreateTopics accepts a new topic")
		w.str(false, name)
		w.i32(np)
		w.i16(rf)
		na := 0
		nc := 0
		if i == nt-1 {
			na = vpN("assign", 2)
			nc = vpN("configs", 2)
		}
		var pids []int32
		var reps [][]int32
		for j := 0; j < na; j++ {
			pid := vpID("pid")
			rep := vpI32s("rep", 2)
			err := r.AddReplicaAssignment(name, pid, rep)
			vpAssert(err == nil, "CreateTopics accepts a replica assignment of one of its topics")
			dup := false
			for k := range pids {
				if pids[k] == pid {
					reps[k] = rep
					dup = true
				}
			}
			if !dup {
				pids = append(pids, pid)
				reps = append(reps, rep)
			}
		}
		w.arr(false, len(pids))
		for k := range pids {
			w.i32(pids[k])
			w.i32s(false, reps[k])
		}
		w.arr(false, nc)
		for j := 0; j < nc; j++ {
			c := &ConfigEntry{ConfigName: vpS("cname", 1), ConfigValue: vpS("cval", 2)}
			w.str(false, c.ConfigName)
			w.str(false, c.ConfigValue)
			r.CreateTopicRequests[i].ConfigEntries = append(r.CreateTopicRequests[i].ConfigEntries, c)
		}
	}
	w.u32(timeout)
	vpChkReq("CreateTopics", vpEnc(r, corr, 0), w)
	vpReach("end")
}

// CreateTopics: adding a topic twice and assigning replicas to an unknown topic are errors
// and leave the request as it was. Names of 0..2 bytes.
func VP_C03_create_topics_reject() {
	client := "c"
	r := NewCreateTopicsRequest(client, 5)
	a := vpS("a", 2)
	b := vpS("b", 2)
	vpAssert(r.AddTopic(a, 1, 1) == nil, "first topic accepted")
	n := len(r.CreateTopicRequests)
	err := r.AddTopic(b, 2, 2)
	if a == b {
		vpAssert(err != nil, "a topic added twice is refused")
		vpAssert(len(r.CreateTopicRequests) == n, "a refused topic is not added")
	} else {
		vpAssert(err == nil, "a new topic is accepted")
	}
	c := vpS("c", 2)
	err = r.AddReplicaAssignment(c, vpID("pid"), []int32{1})
	vpAssert((err == nil) == (c == a || c == b), "replica assignment is accepted exactly for topics of the request")
	vpReach("end")
}

// DeleteTopics v0 and DeleteGroups v0: 0..3 names of 0..2 bytes, any timeout.
func VP_C03_delete_topics_groups() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	n := vpN("names", 3)
	names := make([]string, n)
	for i := range names {
		names[i] = vpS("name", 2)
	}
	w := &vpW{}
	if vpChoose("api", 2) == 0 {
		to := vpI32("timeout")
		r := NewDeleteTopicsRequest(client, names, to)
		w.reqHeader(20, 0, corr, &client, false)
		w.arr(false, n)
		for _, s := range names {
			w.str(false, s)
		}
		w.i32(to)
		vpChkReq("DeleteTopics", vpEnc(&r, corr, 0), w)
	} else {
		r := NewDeleteGroupsRequest(client, names)
		w.reqHeader(42, 0, corr, &client, false)
		w.arr(false, n)
		for _, s := range names {
			w.str(false, s)
		}
		vpChkReq("DeleteGroups", vpEnc(&r, corr, 0), w)
	}
	vpReach("end")
}

// CreatePartitions v0 and v2: 0..4 topics (name 0..1 bytes), any count, assignments null or
// 0..2 lists of 0..2 brokers, any timeout, validate-only on and off.
func VP_C03_create_partitions() {
	v := []uint16{2, 0}[vpChoose("ver", 2)]
	flex := v >= 2
	client := vpS("client", 1)
	corr := vpU32("corr")
	to := vpU32("timeout")
	vo := vpBool("validate")
	r := NewCreatePartitionsRequest(client, to, vo)
	w := &vpW{}
	w.reqHeader(37, v, corr, &client, flex)
	nt := vpN("topics", 4)
	w.arr(flex, nt)
	for i := 0; i < nt; i++ {
		var name string
		na := -1
		if i == 0 {
			name = vpS("name", 1)
			na = vpSize("assign", -1, 2, false)
		} else {
			name = vpS1("name", 1)
			na = vpSize("assign", -1, 0, false)
		}
		cnt := vpI32("count")
		w.str(flex, name)
		w.i32(cnt)
		w.arr(flex, na)
		var as [][]int32
		if na >= 0 {
			as = make([][]int32, na)
		}
		for j := range as {
			as[j] = vpI32s("brokers", 2)
			w.i32s(flex, as[j])
			w.tags(flex, nil)
		}
		w.tags(flex, nil)
		r.AddTopic(name, cnt, as)
	}
	w.u32(to)
	w.bool(vo)
	w.tags(flex, nil)
	vpNoPanic("encoding a CreatePartitions request", func() {
		vpChkReq("CreatePartitions", vpEnc(&r, corr, v), w)
	})
	vpReach("end")
}

// DescribeConfigs v0: 0..2 resources of any type, name 0..2 bytes, config names null or 0..2.
func VP_C03_describe_configs() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	n := vpN("res", 2)
	var rs []*DescribeConfigsRequestResource
	w := &vpW{}
	w.reqHeader(32, 0, corr, &client, false)
	w.arr(false, n)
	for i := 0; i < n; i++ {
		x := &DescribeConfigsRequestResource{ResourceType: vpU8("type"), ResourceName: vpS("name", 2)}
		w.u8(x.ResourceType)
		w.str(false, x.ResourceName)
		k := vpSize("names", -1, 2, false)
		w.arr(false, k)
		if k >= 0 {
			x.ConfigNames = make([]string, k)
			for j := range x.ConfigNames {
				x.ConfigNames[j] = vpS("cname", 1)
				w.str(false, x.ConfigNames[j])
			}
		}
		rs = append(rs, x)
	}
	r := NewDescribeConfigsRequest(client, rs)
	vpChkReq("DescribeConfigs", vpEnc(r, corr, 0), w)
	vpReach("end")
}

type vpCfgRes struct {
	typ   uint8
	name  string
	names []string
	vals  []string
}

// AlterConfigs v0 and IncrementalAlterConfigs v0, filled through their builders: 0..3 added
// configs with any resource type, resource name of 0..1 bytes, config name of 1 byte, value
// 0..1 bytes; equal resources are merged, an equal entry is added once and a conflicting one
// refused; validate-only on and off.
func VP_C03_alter_configs() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	inc := vpChoose("api", 2) == 1
	vo := vpBool("validate")
	ra := NewAlterConfigsRequest(client)
	ri := NewIncrementalAlterConfigsRequest(client)
	var model []*vpCfgRes
	n := vpN("configs", 3)
	for i := 0; i < n; i++ {
		typ, rn, cn, cv := vpElemU8("type"), vpS("rname", 1), vpS1("cname", 1), vpS("cval", 1)
		var err error
		if inc {
			err = ri.AddConfig(typ, rn, cn, cv)
		} else {
			err = ra.AddConfig(typ, rn, cn, cv)
		}
		var m *vpCfgRes
		for _, x := range model {
			if x.typ == typ && x.name == rn {
				m = x
			}
		}
		if m == nil {
			m = &vpCfgRes{typ: typ, name: rn}
			model = append(model, m)
		}
		dup := -1
		for k := range m.names {
			if m.names[k] == cn {
				dup = k
			}
		}
		if dup < 0 {
			m.names = append(m.names, cn)
			m.vals = append(m.vals, cv)
			vpAssert(err == nil, "a new config entry is accepted")
		} else {
			vpAssert((err == nil) == (m.vals[dup] == cv), "a repeated config entry is refused exactly when its value differs")
		}
	}
	w := &vpW{}
	if inc {
		w.reqHeader(44, 0, corr, &client, false)
	} else {
		w.reqHeader(33, 0, corr, &client, false)
	}
	w.arr(false, len(model))
	for _, m := range model {
		w.u8(m.typ)
		w.str(false, m.name)
		w.arr(false, len(m.names))
		for k := range m.names {
			w.str(false, m.names[k])
			if inc {
				w.i8(0) // SET
			}
			w.str(false, m.vals[k])
		}
	}
	w.bool(vo)
	if inc {
		ri.SetValidateOnly(vo)
		vpChkReq("IncrementalAlterConfigs", vpEnc(&ri, corr, 0), w)
	} else {
		ra.SetValidateOnly(vo)
		vpChkReq("AlterConfigs", vpEnc(&ra, corr, 0), w)
	}
	vpReach("end")
}

// IncrementalAlterConfigs v0 with any operation code, filled directly: 0..2 resources, 0..2 entries.
func VP_C03_incremental_ops() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	r := NewIncrementalAlterConfigsRequest(client)
	w := &vpW{}
	w.reqHeader(44, 0, corr, &client, false)
	n := vpN("res", 2)
	w.arr(false, n)
	for i := 0; i < n; i++ {
		x := IncrementalAlterConfigsRequestResource{ResourceType: vpU8("type"), ResourceName: vpS("name", 1)}
		w.u8(x.ResourceType)
		w.str(false, x.ResourceName)
		k := vpN("entries", 2)
		w.arr(false, k)
		for j := 0; j < k; j++ {
			e := IncrementalAlterConfigsRequestConfigEntry{Name: vpS("cname", 1), Operation: vpI8("op"), Value: vpS("cval", 1)}
			w.str(false, e.Name)
			w.i8(e.Operation)
			w.str(false, e.Value)
			x.Entries = append(x.Entries, e)
		}
		r.Resources = append(r.Resources, x)
	}
	w.bool(r.ValidateOnly)
	vpChkReq("IncrementalAlterConfigs", vpEnc(&r, corr, 0), w)
	vpReach("end")
}

type vpTPModel struct {
	topic string
	pids  []int32
	reps  [][]int32
}

// AlterPartitionReassignments v0 (flexible), client id null or 0..1 bytes, any timeout,
// 0..3 added assignments on topics of 1 byte (equal names are merged into one topic),
// replicas null (cancel) or 0..2.
func VP_C03_alter_reassign() {
	corr := vpU32("corr")
	to := vpI32("timeout")
	r := NewAlterPartitionReassignmentsRequest(to)
	r.ClientID = vpNS("client", 1)
	var model []*vpTPModel
	n := vpN("adds", 3)
	for i := 0; i < n; i++ {
		topic := vpS1("topic", 1)
		pid := vpID("pid")
		var rep []int32
		if k := vpSize("rep", -1, 2, false); k >= 0 {
			rep = make([]int32, k)
			for j := range rep {
				rep[j] = vpI32("rep")
			}
		}
		r.AddAssignment(topic, pid, rep)
		var m *vpTPModel
		for _, x := range model {
			if x.topic == topic {
				m = x
			}
		}
		if m == nil {
			m = &vpTPModel{topic: topic}
			model = append(model, m)
		}
		m.pids = append(m.pids, pid)
		m.reps = append(m.reps, rep)
	}
	w := &vpW{}
	w.reqHeader(45, 0, corr, r.ClientID, true)
	w.i32(to)
	w.arr(true, len(model))
	for _, m := range model {
		w.str(true, m.topic)
		w.arr(true, len(m.pids))
		for k := range m.pids {
			w.i32(m.pids[k])
			if m.reps[k] == nil {
				w.arr(true, -1)
			} else {
				w.i32s(true, m.reps[k])
			}
			w.tags(true, nil)
		}
		w.tags(true, nil)
	}
	w.tags(true, nil)
	vpChkReq("AlterPartitionReassignments", vpEnc(&r, corr, 0), w)
	vpReach("end")
}

// ListPartitionReassignments v0 (flexible), DescribeLogDirs v0, ElectLeaders v0: 0..3 added
// topic-partitions on topics of 1..2 bytes, any partition ids (ListPartitionReassignments and
// DescribeLogDirs drop repeated ones, ElectLeaders keeps them), any timeout. No topic at all
// means "all" for ListPartitionReassignments.
func VP_C03_topic_partitions() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	to := vpI32("timeout")
	api := vpChoose("api", 3)
	rl := NewListPartitionReassignmentsRequest(client, to)
	rd := NewDescribeLogDirsRequest(client, nil)
	re := NewElectLeadersRequest(to)
	re.ClientID = &client
	var model []*vpTPModel
	n := vpN("adds", 3)
	for i := 0; i < n; i++ {
		topic := vpS1("topic", vpMax(1, 2))
		pid := vpID("pid")
		switch api {
		case 0:
			rl.AddTP(topic, pid)
		case 1:
			rd.AddTopicPartition(topic, pid)
		case 2:
			re.Add(topic, pid)
		}
		var m *vpTPModel
		for _, x := range model {
			if x.topic == topic {
				m = x
			}
		}
		if m == nil {
			m = &vpTPModel{topic: topic}
			model = append(model, m)
		}
		dup := false
		for _, p := range m.pids {
			if p == pid {
				dup = true
			}
		}
		if !dup || api == 2 {
			m.pids = append(m.pids, pid)
		}
	}
	w := &vpW{}
	flex := api == 0
	switch api {
	case 0:
		w.reqHeader(46, 0, corr, &client, true)
		w.i32(to)
	case 1:
		w.reqHeader(35, 0, corr, &client, false)
	case 2:
		w.reqHeader(43, 0, corr, &client, false)
	}
	if api == 0 && len(model) == 0 {
		w.arr(flex, -1)
	} else {
		w.arr(flex, len(model))
	}
	for _, m := range model {
		w.str(flex, m.topic)
		w.i32s(flex, m.pids)
		w.tags(flex, nil)
	}
	w.tags(flex, nil)
	switch api {
	case 0:
		vpChkReq("ListPartitionReassignments", vpEnc(rl, corr, 0), w)
	case 1:
		vpChkReq("DescribeLogDirs", vpEnc(&rd, corr, 0), w)
	case 2:
		w.i32(to)
		vpChkReq("ElectLeaders", vpEnc(&re, corr, 0), w)
	}
	vpReach("end")
}
