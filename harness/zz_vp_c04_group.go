package healer

// FindCoordinator v0, JoinGroup v0, SyncGroup v0, Heartbeat v0, LeaveGroup v0: any error code
// and ids, strings of 0..2 bytes, 0..2 members with 0..2 bytes of metadata, assignment 0..3 bytes.
func VP_C04_group() {
	corr, ec := vpU32("corr"), vpI16("err")
	w := &vpW{}
	w.u32(corr)
	w.i16(ec)
	switch vpChoose("api", 5) {
	case 0:
		node, host, port := vpI32("node"), vpS("host", 2), vpI32("port")
		w.i32(node)
		w.str(false, host)
		w.i32(port)
		vpDecode("FindCoordinator", func() {
			r, err := NewFindCoordinatorResponse(vpFrame(w.b), 0)
			vpDecOK("FindCoordinator", err)
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec && r.Coordinator.NodeID == node && r.Coordinator.Host == host && r.Coordinator.Port == port, "FindCoordinator response fields")
		})
	case 1:
		gen, proto, leader, member := vpI32("gen"), vpS("proto", 1), vpS("leader", 2), vpS("member", 2)
		w.i32(gen)
		w.str(false, proto)
		w.str(false, leader)
		w.str(false, member)
		ms := make([]Member, vpN("members", 2))
		w.arr(false, len(ms))
		for i := range ms {
			ms[i] = Member{vpS("mid", 1), vpB("meta", 2)}
			w.str(false, ms[i].MemberID)
			w.bytes(false, ms[i].MemberMetadata)
		}
		vpDecode("JoinGroup", func() {
			r, err := NewJoinGroupResponse(vpFrame(w.b))
			vpAssert((err == nil) == (ec == 0), "JoinGroup decoding reports exactly the error code")
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec && r.GenerationID == gen && r.GroupProtocol == proto && r.LeaderID == leader && r.MemberID == member && len(r.Members) == len(ms), "JoinGroup response fields")
			for i := range ms {
				vpAssert(r.Members[i].MemberID == ms[i].MemberID && vpEqBytes(r.Members[i].MemberMetadata, ms[i].MemberMetadata), "JoinGroup response member")
			}
		})
	case 2:
		asg := vpB("assign", 3)
		w.bytes(false, asg)
		vpDecode("SyncGroup", func() {
			r, err := NewSyncGroupResponse(vpFrame(w.b))
			vpAssert((err == nil) == (ec == 0), "SyncGroup decoding reports exactly the error code")
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec && vpEqBytes(r.MemberAssignment, asg), "SyncGroup response fields")
		})
	case 3:
		vpDecode("Heartbeat", func() {
			r, err := NewHeartbeatResponse(vpFrame(w.b))
			vpAssert((err == nil) == (ec == 0), "Heartbeat decoding reports exactly the error code")
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec, "Heartbeat response fields")
		})
	case 4:
		vpDecode("LeaveGroup", func() {
			r, err := NewLeaveGroupResponse(vpFrame(w.b))
			vpAssert((err == nil) == (ec == 0), "LeaveGroup decoding reports exactly the error code")
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec, "LeaveGroup response fields")
		})
	}
	vpReach("end")
}

// ListGroups v0..v5: 0..2 groups, strings of 0..1 bytes, any error code and throttle, tag
// buffers of 0..1 fields in one of the three places.
func VP_C04_list_groups() {
	v := uint16(vpChoose("ver", 6))
	flex := v >= 3
	corr := vpU32("corr")
	tagAt := -1
	var tg TaggedFields
	if flex {
		tagAt = vpChoose("tagat", 3)
		tg = vpTags("tags", 1)
	}
	at := func(k int) TaggedFields {
		if k == tagAt {
			return tg
		}
		return nil
	}
	w := &vpW{}
	w.respHeader(corr, flex, at(0))
	var throttle int32
	if v >= 1 {
		throttle = vpI32("throttle")
		w.i32(throttle)
	}
	ec := vpI16("err")
	w.i16(ec)
	gs := make([]Group, vpN("groups", 2))
	w.arr(flex, len(gs))
	for i := range gs {
		g := &gs[i]
		g.GroupID, g.ProtocolType = vpS("gid", 1), vpS("ptype", 1)
		w.str(flex, g.GroupID)
		w.str(flex, g.ProtocolType)
		if v >= 4 {
			g.GroupState = vpS("state", 1)
			w.str(flex, g.GroupState)
		}
		if v >= 5 {
			g.GroupType = vpS("gtype", 1)
			w.str(flex, g.GroupType)
		}
		w.tags(flex, at(1))
	}
	w.tags(flex, at(2))
	vpDecode("ListGroups", func() {
		r, err := NewListGroupsResponse(vpFrame(w.b), v)
		vpDecOK("ListGroups", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMS == throttle && int16(r.ErrorCode) == ec && len(r.Groups) == len(gs), "ListGroups response fields")
		for i := range gs {
			a, b := &gs[i], r.Groups[i]
			vpAssert(a.GroupID == b.GroupID && a.ProtocolType == b.ProtocolType && a.GroupState == b.GroupState && a.GroupType == b.GroupType, "ListGroups response group")
		}
	})
	vpReach("end")
}

// a consumer-protocol assignment as another client may have written it
func vpAsgBytes(w *vpW) (m MemberAssignment) {
	m.Version = vpI16("aver")
	w.i16(m.Version)
	n := vpN("atopics", 1)
	w.arr(false, n)
	for i := 0; i < n; i++ {
		p := &PartitionAssignment{Topic: vpS1("atopic", 1), Partitions: vpI32s("apart", 2)}
		w.str(false, p.Topic)
		w.i32s(false, p.Partitions)
		m.PartitionAssignments = append(m.PartitionAssignments, p)
	}
	if vpElem("anull", 2) == 1 {
		w.i32(-1)
	} else {
		m.UserData = vpB("auser", 1)
		w.bytes(false, m.UserData)
	}
	return
}

// DescribeGroups v0: 0..2 groups, strings of 0..1 bytes, 0..2 members with 0..2 bytes of
// metadata and an assignment of 0..1 topics with 0..2 partitions, or no assignment at all.
func VP_C04_describe_groups() {
	corr := vpU32("corr")
	w := &vpW{}
	w.u32(corr)
	n := vpN("groups", 2)
	w.arr(false, n)
	gs := make([]GroupDetail, n)
	asg := make([][]*MemberAssignment, n)
	var first int16
	for i := range gs {
		g := &gs[i]
		g.ErrorCode, g.GroupID, g.State, g.ProtocolType, g.Protocol = vpI16("err"), vpS1("gid", 1), vpS("state", 1), vpS1("ptype", 1), vpS1("proto", 1)
		if first == 0 {
			first = g.ErrorCode
		}
		w.i16(g.ErrorCode)
		w.str(false, g.GroupID)
		w.str(false, g.State)
		w.str(false, g.ProtocolType)
		w.str(false, g.Protocol)
		nm := vpN("members", 2-i)
		w.arr(false, nm)
		for j := 0; j < nm; j++ {
			m := MemberDetail{MemberID: vpS1("mid", 1), ClientID: vpS1("cid", 1), ClientHost: vpS1("host", 1), MemberMetadata: vpBytes("meta", max(2-j, 0))}
			w.str(false, m.MemberID)
			w.str(false, m.ClientID)
			w.str(false, m.ClientHost)
			w.bytes(false, m.MemberMetadata)
			aw := &vpW{}
			var a *MemberAssignment
			if j == 0 && i == 0 {
				x := vpAsgBytes(aw)
				a = &x
			} else if vpElem("hasasg", 2) == 1 {
				a = &MemberAssignment{}
				aw.i16(0)
				aw.i32(0)
				aw.i32(-1)
			}
			w.bytes(false, aw.b)
			m.RawMemberAssignment = aw.b
			g.Members = append(g.Members, m)
			asg[i] = append(asg[i], a)
		}
	}
	vpDecode("DescribeGroups", func() {
		r, err := NewDescribeGroupsResponse(vpFrame(w.b))
		vpAssert((err == nil) == (first == 0), "DescribeGroups decoding reports exactly the error codes of the groups")
		vpAssert(r.CorrelationID == corr && len(r.Groups) == n, "DescribeGroups response fields")
		for i := range gs {
			a, b := &gs[i], r.Groups[i]
			vpAssert(a.ErrorCode == b.ErrorCode && a.GroupID == b.GroupID && a.State == b.State && a.ProtocolType == b.ProtocolType && a.Protocol == b.Protocol && len(a.Members) == len(b.Members), "DescribeGroups response group")
			for j := range a.Members {
				x, y := &a.Members[j], &b.Members[j]
				vpAssert(x.MemberID == y.MemberID && x.ClientID == y.ClientID && x.ClientHost == y.ClientHost, "DescribeGroups response member")
				vpAssert(vpEqBytes(x.MemberMetadata, y.MemberMetadata), "DescribeGroups response member metadata")
				vpAssert(vpEqBytes(x.RawMemberAssignment, y.RawMemberAssignment), "DescribeGroups response member assignment bytes")
				z := asg[i][j]
				vpAssert((z == nil) == (y.MemberAssignment == nil), "DescribeGroups response has an assignment exactly for members that have one")
				if z != nil && y.MemberAssignment != nil {
					vpAssert(z.Version == y.MemberAssignment.Version && vpEqBytes(z.UserData, y.MemberAssignment.UserData) && len(z.PartitionAssignments) == len(y.MemberAssignment.PartitionAssignments), "DescribeGroups response assignment")
					for k, p := range z.PartitionAssignments {
						q := y.MemberAssignment.PartitionAssignments[k]
						vpAssert(p.Topic == q.Topic && vpI32sEq(p.Partitions, q.Partitions), "DescribeGroups response assigned partitions")
					}
				}
			}
		}
	})
	vpReach("end")
}
