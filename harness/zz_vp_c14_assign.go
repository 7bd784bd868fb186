package healer

// the consumer protocol's subscription as Kafka defines it (versions 0..2)
func vpSubscription(ver int16, topics []string, user []byte) []byte {
	w := &vpW{}
	w.i16(ver)
	w.arr(false, len(topics))
	for _, t := range topics {
		w.str(false, t)
	}
	if user == nil {
		w.i32(-1)
	} else {
		w.bytes(false, user)
	}
	if ver >= 1 { // owned partitions
		w.arr(false, 1)
		w.str(false, "t")
		w.i32s(false, []int32{3})
	}
	if ver >= 2 { // generation
		w.i32(5)
	}
	return w.b
}

type vpTP struct {
	topic string
	part  int32
}

// an assignment as Kafka defines it
func vpParseAssignment(b []byte) (ver int16, ps []vpTP, user []byte, ok bool) {
	r := &vpRd{b: b}
	ver = r.i16()
	n := int(r.i32())
	for i := 0; i < n; i++ {
		t := r.str()
		m := int(r.i32())
		for j := 0; j < m; j++ {
			ps = append(ps, vpTP{t, r.i32()})
		}
	}
	if l := int(r.i32()); l >= 0 {
		user = r.take(l)
	}
	return ver, ps, user, !r.bad && r.o == len(b)
}

func vpAssign(nm, np, nt int, odd bool) {
	topics := []string{"a", "aa"}[:nt]
	sver := int16(0)
	if !odd {
		sver = int16(vpChoose("sver", 3))
	}
	var ms []Member
	subs := make([][]bool, nm)
	names := map[string]int{}
	for i := 0; i < nm; i++ {
		id := vpStr("id", 1)
		for n := range names {
			vpAssume(n != id)
		}
		names[id] = i
		var ts []string
		subs[i] = make([]bool, nt)
		for j := range topics {
			if nt == 1 && i == 0 || vpChoose("sub", 2) == 1 {
				subs[i][j] = true
				ts = append(ts, topics[j])
			}
		}
		if odd {
			switch vpChoose("odd", 3) {
			case 0: // topics are listed twice
				ts = append(ts, ts...)
			case 1: // a topic nothing is known about
				ts = append([]string{"z"}, ts...)
			}
		}
		ms = append(ms, Member{MemberID: id, MemberMetadata: vpSubscription(sver, ts, nil)})
	}
	var meta []TopicMetadata
	parts := make([][]int32, nt)
	for j, t := range topics {
		n := vpN("parts", np)
		tm := TopicMetadata{TopicName: t}
		for i := 0; i < n; i++ {
			p := vpI32("part")
			for _, o := range parts[j] {
				vpAssume(o != p)
			}
			parts[j] = append(parts[j], p)
			tm.PartitionMetadatas = append(tm.PartitionMetadatas, &PartitionMetadataInfo{PartitionID: p})
		}
		meta = append(meta, tm)
	}
	var g GroupAssignment
	vpNoPanic("assigning partitions", func() {
		g = (&rangeAssignmentStrategy{}).Assign(ms, meta)
	})
	vpAssert(len(g) == nm, "every member gets an assignment")
	seen := make([]bool, nm)
	cnt := make([][]int, nt)
	owner := make([][]int, nt)
	for j := range topics {
		cnt[j] = make([]int, nm)
		owner[j] = make([]int, len(parts[j]))
	}
	for _, e := range g {
		i, found := names[e.MemberID]
		vpAssert(found && !seen[i], "every member gets one assignment")
		vpAssume(found)
		seen[i] = true
		_, ps, _, ok := vpParseAssignment(e.MemberAssignment)
		vpAssert(ok, "an assignment is encoded as Kafka defines it")
		back, err := NewMemberAssignment(e.MemberAssignment)
		vpAssert(err == nil, "an assignment is understood")
		var q []vpTP
		for _, x := range back.PartitionAssignments {
			for _, p := range x.Partitions {
				q = append(q, vpTP{x.Topic, p})
			}
		}
		vpAssert(len(q) == len(ps), "an assignment decodes to what was assigned")
		for n := range ps {
			vpAssert(vpAnd(q[n].topic == ps[n].topic, q[n].part == ps[n].part), "an assignment decodes to what was assigned")
		}
		for _, p := range ps {
			j := 0
			for topics[j] != p.topic {
				j++
			}
			vpAssert(subs[i][j], "only subscribed topics are assigned")
			cnt[j][i]++
			hit := false
			for n, x := range parts[j] {
				hit = vpOr(hit, x == p.part)
				if x == p.part {
					owner[j][n]++
				}
			}
			vpAssert(hit, "only existing partitions are assigned")
		}
	}
	for j := range topics {
		n, lo, hi := 0, 1000, 0
		for i := 0; i < nm; i++ {
			if subs[i][j] {
				n++
				lo, hi = min(lo, cnt[j][i]), max(hi, cnt[j][i])
			}
		}
		if n == 0 {
			continue
		}
		for _, o := range owner[j] {
			vpAssert(o == 1, "every partition is assigned to exactly one member")
		}
		vpAssert(hi-lo <= 1, "partitions are spread evenly")
	}
	vpReach("end")
}

// 1..3 members with any ids, one topic with 0..4 partitions (3 quick) of any ids in any order, any subscriptions (versions 0..2 of
// the subscription format), every map order: each partition goes to exactly one subscriber, evenly; every
// member gets exactly one well-formed assignment.
func VP_C14_one_topic() {
	vpAssign(1+vpChoose("members", 3), vpMax(3, 4), 1, false)
}

// 1..2 members (3 thorough), two topics with 0..2 partitions each: as VP_C14_one_topic.
func VP_C14_two_topics() {
	vpAssign(1+vpChoose("members", vpMax(2, 3)), 2, 2, false)
}

// 2 members, one or two topics with 0..3 (0..2) partitions, subscriptions that list their topics twice, or also a topic
// that is not in the metadata: as VP_C14_one_topic.
func VP_C14_odd_subscriptions() {
	vpMapOrder(1)
	nt := 1 + vpChoose("topics", 2)
	vpAssign(2, 4-nt, nt, true)
}

// Any two members (same ids, same metadata) agree: the order in which the members and partitions are listed does not matter.
func VP_C14_order() {
	vpMapOrder(1)
	a, b := vpStr("id", 1), vpStr("id", 1)
	vpAssume(a != b)
	p, q := vpI32("p"), vpI32("p")
	vpAssume(p != q)
	r := vpI32("p")
	vpAssume(vpAnd(p != r, q != r))
	sub := vpSubscription(0, []string{"t"}, nil)
	run := func(ids []string, ps []int32) (res map[string][]byte) {
		var ms []Member
		for _, i := range ids {
			ms = append(ms, Member{MemberID: i, MemberMetadata: sub})
		}
		tm := TopicMetadata{TopicName: "t"}
		for _, x := range ps {
			tm.PartitionMetadatas = append(tm.PartitionMetadatas, &PartitionMetadataInfo{PartitionID: x})
		}
		res = map[string][]byte{}
		for _, e := range (&rangeAssignmentStrategy{}).Assign(ms, []TopicMetadata{tm}) {
			res[e.MemberID] = e.MemberAssignment
		}
		return
	}
	x, y := run([]string{a, b}, []int32{p, q, r}), run([]string{b, a}, []int32{r, p, q})
	vpAssert(vpEqBytes(x[a], y[a]) && vpEqBytes(x[b], y[b]), "an assignment does not depend on the order of members and partitions")
	vpReach("end")
}

// Assignments with 0..2 topics of 0..2 partitions and user data null or 0..2 bytes: encoding follows Kafka's
// schema and decoding the schema's bytes gives the value back. Subscriptions with 0..2 topics, versions 0..2, user data.
func VP_C14_codecs() {
	nt := vpN("topics", 2)
	var ma MemberAssignment
	ma.Version = vpI16("ver")
	w := &vpW{}
	w.i16(ma.Version)
	w.arr(false, nt)
	var names []string
	for i := 0; i < nt; i++ {
		pa := &PartitionAssignment{Topic: vpS("topic", 2), Partitions: vpI32s("parts", 2)}
		ma.PartitionAssignments = append(ma.PartitionAssignments, pa)
		w.str(false, pa.Topic)
		w.i32s(false, pa.Partitions)
		names = append(names, pa.Topic)
	}
	user := vpNB("user", 2)
	ma.UserData = user
	prefix := len(w.b)
	if user == nil {
		w.i32(-1)
	} else {
		w.bytes(false, user)
	}
	enc := ma.Encode()
	if user == nil {
		vpAssert(vpEqBytes(enc[:prefix], w.b[:prefix]) && len(enc) == prefix+4, "an assignment is encoded as Kafka defines it")
		vpAssert(vpOr(vpEqBytes(enc[prefix:], []byte{0, 0, 0, 0}), vpEqBytes(enc[prefix:], []byte{255, 255, 255, 255})), "an assignment is encoded as Kafka defines it")
	} else {
		vpAssert(vpEqBytes(enc, w.b), "an assignment is encoded as Kafka defines it")
	}
	back, err := NewMemberAssignment(w.b)
	vpAssert(err == nil && back.Version == ma.Version && len(back.PartitionAssignments) == nt, "an assignment is understood")
	for i, pa := range ma.PartitionAssignments {
		vpAssert(back.PartitionAssignments[i].Topic == pa.Topic && vpI32sEq(back.PartitionAssignments[i].Partitions, pa.Partitions), "an assignment is understood")
	}
	vpAssert(vpEqBytes(back.UserData, user), "an assignment's user data is understood")

	ver := int16(vpChoose("sver", 3))
	pm := NewProtocolMetadata(vpSubscription(ver, names, user))
	vpAssert(pm.Version == uint16(ver) && vpStrsEq(pm.Subscription, names) && vpEqBytes(pm.UserData, user), "a subscription is understood")
	sub := &ProtocolMetadata{Subscription: names, UserData: user}
	e := sub.Encode()
	if user == nil {
		user = []byte{}
	}
	vpAssert(vpEqBytes(e, vpSubscription(0, names, user)) || len(user) == 0 && vpEqBytes(e, vpSubscription(0, names, nil)), "a subscription is encoded as Kafka defines it")
	vpReach("end")
}
