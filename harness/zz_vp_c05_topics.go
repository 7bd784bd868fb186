package healer

// CreateTopics v0, DeleteTopics v0, DeleteGroups v0: 0..3 entries, names of 0..2 bytes, any
// error code, throttle and correlation id.
func VP_C05_name_err() {
	corr := vpU32("corr")
	api := vpChoose("api", 3)
	w := &vpW{}
	w.u32(corr)
	var throttle int32
	if api == 2 {
		throttle = vpI32("throttle")
		w.i32(throttle)
	}
	n := vpN("n", 3)
	names, codes := make([]string, n), make([]int16, n)
	w.arr(false, n)
	for i := 0; i < n; i++ {
		names[i], codes[i] = vpS("name", 2), vpI16("code")
		w.str(false, names[i])
		w.i16(codes[i])
	}
	f := vpFrame(w.b)
	switch api {
	case 0:
		vpDecode("CreateTopics", func() {
			r, err := NewCreateTopicsResponse(f)
			vpDecOK("CreateTopics", err)
			vpAssert(r.CorrelationID == corr && len(r.TopicErrors) == n, "CreateTopics response fields")
			for i, e := range r.TopicErrors {
				vpAssert(e.Topic == names[i] && e.ErrorCode == codes[i], "CreateTopics response topic")
			}
		})
	case 1:
		vpDecode("DeleteTopics", func() {
			r, err := NewDeleteTopicsResponse(f, 0)
			vpDecOK("DeleteTopics", err)
			vpAssert(r.CorrelationID == corr && len(r.Results) == n, "DeleteTopics response fields")
			for i, e := range r.Results {
				vpAssert(e.TopicName == names[i] && e.ErrorCode == codes[i], "DeleteTopics response topic")
			}
		})
	case 2:
		vpDecode("DeleteGroups", func() {
			r, err := NewDeleteGroupsResponse(f)
			vpDecOK("DeleteGroups", err)
			vpAssert(r.CorrelationID == corr && r.ThrottleTimeMs == throttle && len(r.Results) == n, "DeleteGroups response fields")
			for i, e := range r.Results {
				vpAssert(e.GroupID == names[i] && e.ErrorCode == codes[i], "DeleteGroups response group")
			}
		})
	}
	vpReach("end")
}

// ElectLeaders v0: 0..2 topics with 0..2 partitions, messages null/0..1 bytes.
func VP_C05_elect_leaders() {
	corr, throttle := vpU32("corr"), vpI32("throttle")
	w := &vpW{}
	w.u32(corr)
	w.i32(throttle)
	type part struct {
		id   int32
		code int16
		msg  *string
	}
	n := vpN("topics", 2)
	names, parts := make([]string, n), make([][]part, n)
	w.arr(false, n)
	for i := range names {
		names[i] = vpS("topic", 1)
		w.str(false, names[i])
		parts[i] = make([]part, vpN("parts", 2))
		w.arr(false, len(parts[i]))
		for j := range parts[i] {
			p := part{vpID("pid"), vpI16("code"), vpNS("msg", 1)}
			w.i32(p.id)
			w.i16(p.code)
			w.nstr(false, p.msg)
			parts[i][j] = p
		}
	}
	vpDecode("ElectLeaders", func() {
		r, err := NewElectLeadersResponse(vpFrame(w.b), 0)
		vpDecOK("ElectLeaders", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMS == throttle && len(r.ReplicaElectionResults) == n, "ElectLeaders response fields")
		for i, t := range r.ReplicaElectionResults {
			vpAssert(t.Topic == names[i] && len(t.PartitionResults) == len(parts[i]), "ElectLeaders response topic")
			for j, p := range t.PartitionResults {
				e := parts[i][j]
				vpAssert(p.PartitionID == e.id && p.ErrorCode == e.code && vpStrEqN(p.ErrorMessage, e.msg), "ElectLeaders response partition")
			}
		}
	})
	vpReach("end")
}

// DescribeLogDirs v0: 0..2 log dirs with 0..2 topics with 0..2 partitions, names of 0..1 bytes.
func VP_C05_describe_logdirs() {
	corr, throttle := vpU32("corr"), vpI32("throttle")
	w := &vpW{}
	w.u32(corr)
	w.i32(throttle)
	rs := make([]DescribeLogDirsResponseResult, vpN("dirs", 2))
	w.arr(false, len(rs))
	for i := range rs {
		d := &rs[i]
		d.ErrorCode, d.LogDir = vpI16("code"), vpS("dir", 1)
		w.i16(d.ErrorCode)
		w.str(false, d.LogDir)
		d.Topics = make([]DescribeLogDirsResponseTopic, vpN("topics", 2))
		w.arr(false, len(d.Topics))
		for j := range d.Topics {
			t := &d.Topics[j]
			t.TopicName = vpS1("topic", 1)
			w.str(false, t.TopicName)
			np := 1
			if i == 0 && j == 0 {
				np = vpN("parts", 2)
			}
			t.Partitions = make([]DescribeLogDirsResponsePartition, np)
			w.arr(false, len(t.Partitions))
			for k := range t.Partitions {
				p, fut := &t.Partitions[k], vpBit("future")
				p.PartitionID, p.Size, p.OffsetLag, p.IsFutureKey = vpID("pid"), vpI64("size"), vpI64("lag"), fut != 0
				w.i32(p.PartitionID)
				w.i64(p.Size)
				w.i64(p.OffsetLag)
				w.u8(fut)
			}
		}
	}
	vpDecode("DescribeLogDirs", func() {
		r, err := NewDescribeLogDirsResponse(vpFrame(w.b), 0)
		vpDecOK("DescribeLogDirs", err)
		vpAssert(r.CoordinatorID == corr && r.ThrottleTimeMS == throttle && len(r.Results) == len(rs), "DescribeLogDirs response fields")
		for i, d := range r.Results {
			e := rs[i]
			vpAssert(d.ErrorCode == e.ErrorCode && d.LogDir == e.LogDir && len(d.Topics) == len(e.Topics), "DescribeLogDirs response log dir")
			for j, t := range d.Topics {
				vpAssert(t.TopicName == e.Topics[j].TopicName && len(t.Partitions) == len(e.Topics[j].Partitions), "DescribeLogDirs response topic")
				for k, p := range t.Partitions {
					vpAssert(p == e.Topics[j].Partitions[k], "DescribeLogDirs response partition")
				}
			}
		}
	})
	vpReach("end")
}

// DescribeConfigs v0: 0..2 resources with 0..2 entries; message, value null/0..1 bytes.
func VP_C05_describe_configs() {
	corr, throttle := vpU32("corr"), vpU32("throttle")
	w := &vpW{}
	w.u32(corr)
	w.u32(throttle)
	rs := make([]describeConfigsResponseResource, vpN("res", 2))
	msgs := make([]*string, len(rs))
	vals := make([][]*string, len(rs))
	vr := vpVary(len(rs))
	w.arr(false, len(rs))
	for i := range rs {
		d := &rs[i]
		d.ErrorCode, msgs[i], d.ResourceType, d.ResourceName = vpI16("code"), vpNSv(i == vr, "msg", 1), vpU8("type"), vpSv(i == vr, "name", 1)
		w.i16(d.ErrorCode)
		w.nstr(false, msgs[i])
		w.u8(d.ResourceType)
		w.str(false, d.ResourceName)
		d.ConfigEntries = make([]describeConfigsResponseConfigEntry, vpNv(i == vr, "entries", 2))
		w.arr(false, len(d.ConfigEntries))
		for j := range d.ConfigEntries {
			c, v := &d.ConfigEntries[j], vpNSv(i == vr, "val", 1)
			vals[i] = append(vals[i], v)
			ro, de, se := vpBit("ro"), vpBit("def"), vpBit("sens")
			c.ConfigName, c.ReadOnly, c.IsDefault, c.IsSensitive = vpS1("key", 1), ro != 0, de != 0, se != 0
			w.str(false, c.ConfigName)
			w.nstr(false, v)
			w.u8(ro)
			w.u8(de)
			w.u8(se)
		}
	}
	vpDecode("DescribeConfigs", func() {
		r, err := NewDescribeConfigsResponse(vpFrame(w.b))
		vpDecOK("DescribeConfigs", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMS == throttle && len(r.Resources) == len(rs), "DescribeConfigs response fields")
		for i, d := range r.Resources {
			e := rs[i]
			vpAssert(d.ErrorCode == e.ErrorCode && vpStrEqN(d.ErrorMessage, msgs[i]) && d.ResourceType == e.ResourceType && d.ResourceName == e.ResourceName && len(d.ConfigEntries) == len(e.ConfigEntries), "DescribeConfigs response resource")
			for j, c := range d.ConfigEntries {
				f := e.ConfigEntries[j]
				vpAssert(c.ConfigName == f.ConfigName && vpStrEqN(c.ConfigValue, vals[i][j]) && c.ReadOnly == f.ReadOnly && c.IsDefault == f.IsDefault && c.IsSensitive == f.IsSensitive, "DescribeConfigs response entry")
			}
		}
	})
	vpReach("end")
}

// AlterConfigs v0, IncrementalAlterConfigs v0: 0..3 resources, message null/0..2 bytes.
func VP_C05_alter_configs() {
	corr, throttle := vpU32("corr"), vpU32("throttle")
	w := &vpW{}
	w.u32(corr)
	w.u32(throttle)
	rs := make([]AlterConfigsResponseResource, vpN("res", 3))
	msgs := make([]*string, len(rs))
	w.arr(false, len(rs))
	for i := range rs {
		d := &rs[i]
		d.ErrorCode, msgs[i], d.ResourceType, d.ResourceName = vpI16("code"), vpNS("msg", 1), vpU8("type"), vpS("name", 1)
		w.i16(d.ErrorCode)
		w.nstr(false, msgs[i])
		w.u8(d.ResourceType)
		w.str(false, d.ResourceName)
	}
	f := vpFrame(w.b)
	if vpChoose("api", 2) == 0 {
		vpDecode("AlterConfigs", func() {
			r, err := NewAlterConfigsResponse(f)
			vpDecOK("AlterConfigs", err)
			vpAssert(r.CorrelationID == corr && r.ThrottleTimeMS == throttle && len(r.Resources) == len(rs), "AlterConfigs response fields")
			for i, d := range r.Resources {
				vpAssert(d.ErrorCode == rs[i].ErrorCode && vpStrEqN(d.ErrorMessage, msgs[i]) && d.ResourceType == rs[i].ResourceType && d.ResourceName == rs[i].ResourceName, "AlterConfigs response resource")
			}
		})
	} else {
		vpDecode("IncrementalAlterConfigs", func() {
			r, err := NewIncrementalAlterConfigsResponse(f, 0)
			vpDecOK("IncrementalAlterConfigs", err)
			vpAssert(r.CorrelationID == corr && r.ThrottleTimeMs == throttle && len(r.Resources) == len(rs), "IncrementalAlterConfigs response fields")
			for i, d := range r.Resources {
				vpAssert(d.ErrorCode == rs[i].ErrorCode && vpStrEqN(d.ErrorMessage, msgs[i]) && d.ResourceType == rs[i].ResourceType && d.ResourceName == rs[i].ResourceName, "IncrementalAlterConfigs response resource")
			}
		})
	}
	vpReach("end")
}

// places in a flexible response where a non-empty tag buffer is put: one at a time
type vpTagPlace struct {
	k, at int
	tg    TaggedFields
}

func vpTagPlaces(flex bool, n int) *vpTagPlace {
	p := &vpTagPlace{at: -1}
	if flex {
		p.at = vpChoose("tagat", n)
		p.tg = vpTags("tags", 1)
	}
	return p
}

func (p *vpTagPlace) in(k int) TaggedFields {
	if p.at == k {
		return p.tg
	}
	return nil
}

// CreatePartitions v0, v2: 0..2 topics, message null/0..1 bytes, a tag buffer of 0..1 fields in
// one of the three places.
func VP_C05_create_partitions() {
	v := uint16(vpChoose("ver", 2) * 2)
	flex := v == 2
	corr, throttle := vpU32("corr"), vpI32("throttle")
	tp := vpTagPlaces(flex, 3)
	w := &vpW{}
	w.respHeader(corr, flex, tp.in(0))
	w.i32(throttle)
	rs := make([]createPartitionsResponseResultBlock, vpN("res", 2))
	w.arr(flex, len(rs))
	for i := range rs {
		d := &rs[i]
		d.TopicName, d.ErrorCode, d.ErrorMessage = vpS("topic", 1), vpI16("code"), vpNS("msg", 1)
		w.str(flex, d.TopicName)
		w.i16(d.ErrorCode)
		w.nstr(flex, d.ErrorMessage)
		w.tags(flex, tp.in(1))
	}
	w.tags(flex, tp.in(2))
	vpDecode("CreatePartitions", func() {
		r, err := NewCreatePartitionsResponse(vpFrame(w.b), v)
		vpDecOK("CreatePartitions", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMS == throttle && len(r.Results) == len(rs), "CreatePartitions response fields")
		for i, d := range r.Results {
			vpAssert(d.TopicName == rs[i].TopicName && d.ErrorCode == rs[i].ErrorCode && vpPtrEq(d.ErrorMessage, rs[i].ErrorMessage), "CreatePartitions response topic")
		}
	})
	vpReach("end")
}

// AlterPartitionReassignments v0: 0..2 topics with 0..2 partitions, messages null/0..1 bytes,
// a tag buffer of 0..1 fields in one of the four places.
func VP_C05_alter_reassign() {
	corr, throttle, code, msg := vpU32("corr"), vpI32("throttle"), vpI16("err"), vpNS("emsg", 1)
	tp := vpTagPlaces(true, 4)
	w := &vpW{}
	w.respHeader(corr, true, tp.in(0))
	w.i32(throttle)
	w.i16(code)
	w.nstr(true, msg)
	ts := make([]alterPartitionReassignmentsResponseTopic, vpN("topics", 2))
	vt := vpVary(len(ts))
	w.arr(true, len(ts))
	for i := range ts {
		t := &ts[i]
		t.Name = vpS1("topic", 1)
		w.str(true, t.Name)
		n := vpNv(i == vt, "parts", 2)
		w.arr(true, n)
		for j := 0; j < n; j++ {
			p := &alterPartitionReassignmentsResponseTopicPartition{PartitionID: vpID("pid"), ErrorCode: vpI16("code"), ErrorMsg: vpNSv(i == vt, "msg", 1)}
			w.i32(p.PartitionID)
			w.i16(p.ErrorCode)
			w.nstr(true, p.ErrorMsg)
			w.tags(true, tp.in(1))
			t.Partitions = append(t.Partitions, p)
		}
		w.tags(true, tp.in(2))
	}
	w.tags(true, tp.in(3))
	vpDecode("AlterPartitionReassignments", func() {
		r, err := NewAlterPartitionReassignmentsResponse(vpFrame(w.b), 0)
		vpDecOK("AlterPartitionReassignments", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMs == throttle && r.ErrorCode == code && vpPtrEq(r.ErrorMsg, msg) && len(r.Responses) == len(ts), "AlterPartitionReassignments response fields")
		for i, t := range r.Responses {
			vpAssert(t.Name == ts[i].Name && len(t.Partitions) == len(ts[i].Partitions), "AlterPartitionReassignments response topic")
			for j, p := range t.Partitions {
				e := ts[i].Partitions[j]
				vpAssert(p.PartitionID == e.PartitionID && p.ErrorCode == e.ErrorCode && vpPtrEq(p.ErrorMsg, e.ErrorMsg), "AlterPartitionReassignments response partition")
			}
		}
	})
	vpReach("end")
}

// ListPartitionReassignments v0: 0..2 topics with 0..2 partitions with 0..2 replicas in one of
// the three lists, message null/0..1 bytes, a tag buffer of 0..1 fields in one of four places.
func VP_C05_list_reassign() {
	corr, throttle, code, msg := vpU32("corr"), vpI32("throttle"), vpI16("err"), vpNS("emsg", 1)
	tp := vpTagPlaces(true, 4)
	w := &vpW{}
	w.respHeader(corr, true, tp.in(0))
	w.i32(throttle)
	w.i16(code)
	w.nstr(true, msg)
	ts := make([]listPartitionReassignmentsTopicBlock, vpN("topics", 2))
	lst, vt := vpChoose("list", 3), vpVary(len(ts))
	w.arr(true, len(ts))
	for i := range ts {
		t := &ts[i]
		t.Name = vpS1("topic", 1)
		w.str(true, t.Name)
		n := vpNv(i == vt, "parts", 2)
		w.arr(true, n)
		for j := 0; j < n; j++ {
			p := listPartitionReassignmentsPartitionBlock{Pid: vpID("pid")}
			l := [3][]int32{{1}, {2}, {3}}
			if i == vt {
				l[lst] = vpI32s("repl", 2)
			}
			p.Replicas, p.AddingReplicas, p.RemovingReplicas = l[0], l[1], l[2]
			w.i32(p.Pid)
			w.i32s(true, p.Replicas)
			w.i32s(true, p.AddingReplicas)
			w.i32s(true, p.RemovingReplicas)
			w.tags(true, tp.in(1))
			t.Partitions = append(t.Partitions, p)
		}
		w.tags(true, tp.in(2))
	}
	w.tags(true, tp.in(3))
	vpDecode("ListPartitionReassignments", func() {
		r, err := NewListPartitionReassignmentsResponse(vpFrame(w.b), 0)
		vpDecOK("ListPartitionReassignments", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMS == throttle && r.ErrorCode == code && vpPtrEq(r.ErrorMessage, msg) && len(r.Topics) == len(ts), "ListPartitionReassignments response fields")
		for i, t := range r.Topics {
			vpAssert(t.Name == ts[i].Name && len(t.Partitions) == len(ts[i].Partitions), "ListPartitionReassignments response topic")
			for j, p := range t.Partitions {
				e := ts[i].Partitions[j]
				vpAssert(p.Pid == e.Pid && vpI32sEq(p.Replicas, e.Replicas) && vpI32sEq(p.AddingReplicas, e.AddingReplicas) && vpI32sEq(p.RemovingReplicas, e.RemovingReplicas), "ListPartitionReassignments response partition")
			}
		}
	})
	vpReach("end")
}

// A response whose size field disagrees with its length (any size field, 16 further bytes of
// any value) is refused with an error by every admin decoder.
func VP_C05_size() {
	apis := []uint16{API_DescribeConfigs, API_AlterPartitionReassignments, API_ListPartitionReassignments, API_CreateTopics, API_DeleteTopics, API_AlterConfigs, API_DescribeAcls, API_CreateAcls, API_DeleteAcls, API_Delete_Groups, API_IncrementalAlterConfigs, API_CreatePartitions, API_DescribeLogDirs, API_ElectLeaders}
	api := apis[vpChoose("api", len(apis))]
	data := vpBytes("data", 20)
	n := uint32(data[0])<<24 | uint32(data[1])<<16 | uint32(data[2])<<8 | uint32(data[3])
	vpAssume(n != 16)
	p := defaultReadParser{broker: &Broker{}, api: api, version: 0}
	vpNoPanic("decoding a response with a wrong size field", func() {
		_, err := p.Parse(data)
		vpAssert(err != nil, "a response with a wrong size field is refused")
	})
	vpReach("end")
}
