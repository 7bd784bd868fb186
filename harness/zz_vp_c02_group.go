package healer

// OffsetCommit v0, v2: 0..3 AddPartiton calls over two topics with any partition ids
// and offsets; a repeated partition replaces the earlier entry.
func VP_C02_offset_commit() {
	v := []uint16{2, 0}[vpChoose("ver", 2)]
	client, group, member := vpS("client", 1), vpS("group", 1), vpS("member", 1)
	r := NewOffsetCommitRequest(v, client, group)
	r.SetMemberID(member)
	r.SetGenerationID(vpI32("gen"))
	r.SetRetentionTime(vpI64("ret"))
	type pe struct {
		id   int32
		off  int64
		meta string
	}
	type te struct {
		t  string
		ps []pe
	}
	var ref []te
	n := vpN("calls", 3)
	for i := 0; i < n; i++ {
		t := []string{"a", "bc"}[vpElem("topic", 2)]
		p := pe{vpID("pid"), vpI64("off"), vpS("meta", 1)}
		r.AddPartiton(t, p.id, p.off, p.meta)
		ti := -1
		for k := range ref {
			if ref[k].t == t {
				ti = k
			}
		}
		if ti < 0 {
			ref = append(ref, te{t: t})
			ti = len(ref) - 1
		}
		done := false
		for k := range ref[ti].ps {
			if ref[ti].ps[k].id == p.id {
				ref[ti].ps[k] = p
				done = true
				break
			}
		}
		if !done {
			ref[ti].ps = append(ref[ti].ps, p)
		}
	}
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(8, v, corr, &client, false)
	w.str(false, group)
	if v >= 1 {
		w.i32(r.GenerationID)
		w.str(false, member)
	}
	if v >= 2 {
		w.i64(r.RetentionTime)
	}
	w.arr(false, len(ref))
	for _, t := range ref {
		w.str(false, t.t)
		w.arr(false, len(t.ps))
		for _, p := range t.ps {
			w.i32(p.id)
			w.i64(p.off)
			w.str(false, p.meta)
		}
	}
	vpChkReq("OffsetCommit", vpEnc(r, corr, v), w)
	vpReach("end")
}

// OffsetFetch v0, v1: 0..3 AddPartiton calls over two topics, any partition ids.
func VP_C02_offset_fetch() {
	v := []uint16{1, 0}[vpChoose("ver", 2)]
	client, group := vpS("client", 1), vpS("group", 2)
	r := NewOffsetFetchRequest(v, client, group)
	var names []string
	ps := map[string][]int32{}
	n := vpN("calls", 3)
	for i := 0; i < n; i++ {
		t := []string{"a", "bc"}[vpElem("topic", 2)]
		p := vpID("pid")
		r.AddPartiton(t, p)
		if _, ok := ps[t]; !ok {
			names = append(names, t)
		}
		dup := false
		for _, q := range ps[t] {
			if q == p {
				dup = true
				break
			}
		}
		if !dup {
			ps[t] = append(ps[t], p)
		}
	}
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(9, v, corr, &client, false)
	w.str(false, group)
	w.arr(false, len(names))
	for _, t := range names {
		w.str(false, t)
		w.i32s(false, ps[t])
	}
	vpChkReq("OffsetFetch", vpEnc(r, corr, v), w)
	vpReach("end")
}

// FindCoordinator, Heartbeat, LeaveGroup, SyncGroup, JoinGroup, DescribeGroups v0:
// every string 0..2 bytes, arrays 0..2 entries, any integers.
func VP_C02_find_coordinator() {
	client, group := vpS("client", 2), vpS("group", 2)
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(10, 0, corr, &client, false)
	w.str(false, group)
	vpChkReq("FindCoordinator", vpEnc(NewFindCoordinatorRequest(client, group), corr, 0), w)
	vpReach("end")
}

// see VP_C02_find_coordinator
func VP_C02_heartbeat() {
	client, group, member := vpS("client", 2), vpS("group", 2), vpS("member", 2)
	gen := vpI32("gen")
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(12, 0, corr, &client, false)
	w.str(false, group)
	w.i32(gen)
	w.str(false, member)
	vpChkReq("Heartbeat", vpEnc(NewHeartbeatRequest(client, group, gen, member), corr, 0), w)
	vpReach("end")
}

// see VP_C02_find_coordinator
func VP_C02_leave_group() {
	client, group, member := vpS("client", 2), vpS("group", 2), vpS("member", 2)
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(13, 0, corr, &client, false)
	w.str(false, group)
	w.str(false, member)
	vpChkReq("LeaveGroup", vpEnc(NewLeaveGroupRequest(client, group, member), corr, 0), w)
	vpReach("end")
}

// see VP_C02_find_coordinator
func VP_C02_sync_group() {
	client, group, member := vpS("client", 1), vpS("group", 1), vpS("member", 1)
	gen := vpI32("gen")
	corr := vpU32("corr")
	var ga GroupAssignment
	n := vpN("assignments", 2)
	w := &vpW{}
	w.reqHeader(14, 0, corr, &client, false)
	w.str(false, group)
	w.i32(gen)
	w.str(false, member)
	w.arr(false, n)
	for i := 0; i < n; i++ {
		m, a := vpS("m", 1), vpB("a", 2)
		ga = append(ga, struct {
			MemberID         string
			MemberAssignment []byte
		}{m, a})
		w.str(false, m)
		w.bytes(false, a)
	}
	vpChkReq("SyncGroup", vpEnc(NewSyncGroupRequest(client, group, gen, member, ga), corr, 0), w)
	vpReach("end")
}

// see VP_C02_find_coordinator
func VP_C02_join_group() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	r := NewJoinGroupRequest(0, client)
	r.GroupID = vpS("group", 1)
	r.SessionTimeout = vpI32("session")
	r.MemberID = vpS("member", 1)
	r.ProtocolType = vpS("ptype", 1)
	n := vpN("protocols", 2)
	w := &vpW{}
	w.reqHeader(11, 0, corr, &client, false)
	w.str(false, r.GroupID)
	w.i32(r.SessionTimeout)
	w.str(false, r.MemberID)
	w.str(false, r.ProtocolType)
	w.arr(false, n)
	for i := 0; i < n; i++ {
		gp := &GroupProtocol{ProtocolName: vpS("pname", 1), ProtocolMetadata: vpB("pmeta", 2)}
		r.AddGroupProtocal(gp)
		w.str(false, gp.ProtocolName)
		w.bytes(false, gp.ProtocolMetadata)
	}
	vpChkReq("JoinGroup", vpEnc(r, corr, 0), w)
	vpReach("end")
}

// see VP_C02_find_coordinator
func VP_C02_describe_groups() {
	client := vpS("client", 1)
	corr := vpU32("corr")
	n := vpN("groups", 3)
	w := &vpW{}
	w.reqHeader(15, 0, corr, &client, false)
	w.arr(false, n)
	var gs []string
	for i := 0; i < n; i++ {
		g := vpS("group", 2)
		gs = append(gs, g)
		w.str(false, g)
	}
	vpChkReq("DescribeGroups", vpEnc(NewDescribeGroupsRequest(client, gs), corr, 0), w)
	vpReach("end")
}

// ListGroups v0..v5: state and type filters of 0..2 entries of 0..2 bytes.
func VP_C02_list_groups() {
	v := uint16(vpChoose("ver", 6))
	flex := v >= 3
	client := vpS("client", 1)
	corr := vpU32("corr")
	r := NewListGroupsRequest(client)
	w := &vpW{}
	w.reqHeader(16, v, corr, &client, flex)
	var sf, tf []string
	for i, n := 0, vpN("states", 2); i < n; i++ {
		sf = append(sf, vpS("state", 1))
	}
	for i, n := 0, vpN("types", 2); i < n; i++ {
		tf = append(tf, vpS("type", 1))
	}
	if len(sf) > 0 {
		r.SetStatesFilter(sf)
	}
	if len(tf) > 0 {
		r.SetTypesFilter(tf)
	}
	if v >= 4 {
		w.arr(flex, len(sf))
		for _, s := range sf {
			w.str(flex, s)
		}
	}
	if v >= 5 {
		w.arr(flex, len(tf))
		for _, s := range tf {
			w.str(flex, s)
		}
	}
	w.tags(flex, nil)
	vpChkReq("ListGroups", vpEnc(r, corr, v), w)
	vpReach("end")
}

// ApiVersions v0, SaslHandshake v0/v1, SaslAuthenticate v0 (PLAIN): client id, mechanism,
// user and password of 0..2 bytes.
func VP_C02_session() {
	client := vpS("client", 2)
	corr := vpU32("corr")
	w := &vpW{}
	w.reqHeader(18, 0, corr, &client, false)
	vpChkReq("ApiVersions", vpEnc(NewApiVersionsRequest(client), corr, 0), w)

	v := uint16(vpChoose("ver", 2))
	mech := vpS("mech", 2)
	w = &vpW{}
	w.reqHeader(17, v, corr, &client, false)
	w.str(false, mech)
	vpChkReq("SaslHandshake", vpEnc(NewSaslHandShakeRequest(client, mech), corr, v), w)

	user, pw := vpS("user", 2), vpS("password", 2)
	w = &vpW{}
	w.reqHeader(36, 0, corr, &client, false)
	w.bytes(false, []byte("\x00"+user+"\x00"+pw))
	r := NewSaslAuthenticateRequest(client, user, pw, "PLAIN")
	vpChkReq("SaslAuthenticate", vpEnc(r, corr, 0), w)
	vpReach("end")
}
