package healer

// DescribeAcls v0..v2: 0..2 resources with 0..2 acls, strings of 0..1 bytes, message null/0..1
// bytes, a tag buffer of 0..1 fields in one of the four places.
func VP_C05_describe_acls() {
	v := uint16(vpChoose("ver", 3))
	flex := v >= 2
	corr, throttle, code, msg := vpU32("corr"), vpI32("throttle"), vpI16("err"), vpNS("msg", 1)
	tp := vpTagPlaces(flex, 4)
	w := &vpW{}
	w.respHeader(corr, flex, tp.in(0))
	w.i32(throttle)
	w.i16(code)
	w.nstr(flex, msg)
	rs := make([]AclResource, vpN("res", 2))
	vr := vpVary(len(rs))
	w.arr(flex, len(rs))
	for i := range rs {
		d := &rs[i]
		d.ResourceType, d.ResourceName = AclsResourceType(vpI8("rtype")), vpSv(i == vr, "rname", 1)
		w.i8(int8(d.ResourceType))
		w.str(flex, d.ResourceName)
		if v >= 1 {
			d.PatternType = AclsPatternType(vpI8("ptype"))
			w.i8(int8(d.PatternType))
		}
		d.Acls = make([]Acl, vpNv(i == vr, "acls", 2))
		w.arr(flex, len(d.Acls))
		for j := range d.Acls {
			a := &d.Acls[j]
			a.Principal, a.Host, a.Operation, a.PermissionType = vpSv(i == vr && j == 0, "princ", 1), vpSv(i == vr && j == 1, "host", 1), AclsOperation(vpI8("op")), AclsPermissionType(vpI8("perm"))
			w.str(flex, a.Principal)
			w.str(flex, a.Host)
			w.i8(int8(a.Operation))
			w.i8(int8(a.PermissionType))
			w.tags(flex, tp.in(1))
		}
		w.tags(flex, tp.in(2))
	}
	w.tags(flex, tp.in(3))
	vpDecode("DescribeAcls", func() {
		r, err := NewDescribeAclsResponse(vpFrame(w.b), v)
		vpDecOK("DescribeAcls", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMs == throttle && r.ErrorCode == code && vpPtrEq(r.ErrorMessage, msg) && len(r.Resources) == len(rs), "DescribeAcls response fields")
		for i, d := range r.Resources {
			e := rs[i]
			vpAssert(d.ResourceType == e.ResourceType && d.ResourceName == e.ResourceName && d.PatternType == e.PatternType && len(d.Acls) == len(e.Acls), "DescribeAcls response resource")
			for j, a := range d.Acls {
				b := e.Acls[j]
				vpAssert(a.Principal == b.Principal && a.Host == b.Host && a.Operation == b.Operation && a.PermissionType == b.PermissionType, "DescribeAcls response acl")
			}
		}
	})
	vpReach("end")
}

// CreateAcls v0..v3: 0..3 results, message null/0..2 bytes, a tag buffer of 0..1 fields in one of
// the three places.
func VP_C05_create_acls() {
	v := uint16(vpChoose("ver", 4))
	flex := v >= 2
	corr := vpU32("corr")
	tp := vpTagPlaces(flex, 3)
	w := &vpW{}
	w.respHeader(corr, flex, tp.in(0))
	w.i32(vpI32("throttle"))
	rs := make([]AclCreationResult, vpN("res", 3))
	w.arr(flex, len(rs))
	for i := range rs {
		d := &rs[i]
		d.ErrorCode, d.ErrorMessage = vpU16("code"), vpNS("msg", 2)
		w.u16(d.ErrorCode)
		w.nstr(flex, d.ErrorMessage)
		w.tags(flex, tp.in(1))
	}
	w.tags(flex, tp.in(2))
	vpDecode("CreateAcls", func() {
		r, err := DecodeCreateAclsResponse(vpFrame(w.b), v)
		vpDecOK("CreateAcls", err)
		vpAssert(r.CorrelationID == corr && len(r.Results) == len(rs), "CreateAcls response fields")
		for i, d := range r.Results {
			vpAssert(d.ErrorCode == rs[i].ErrorCode && vpPtrEq(d.ErrorMessage, rs[i].ErrorMessage), "CreateAcls response result")
		}
	})
	vpReach("end")
}

// DeleteAcls v0..v3: 0..2 filter results with 0..2 acls, strings of 0..1 bytes, messages null or
// 0..1 bytes, a tag buffer of 0..1 fields in one of the four places.
func VP_C05_delete_acls() {
	v := uint16(vpChoose("ver", 4))
	flex := v >= 2
	corr, throttle := vpU32("corr"), vpI32("throttle")
	tp := vpTagPlaces(flex, 4)
	w := &vpW{}
	w.respHeader(corr, flex, tp.in(0))
	w.i32(throttle)
	rs := make([]DeleteAclsFilterResult, vpN("res", 2))
	vr := vpVary(len(rs))
	w.arr(flex, len(rs))
	for i := range rs {
		d := &rs[i]
		d.ErrorCode, d.ErrorMessage = vpI16("code"), vpNSv(i == vr, "msg", 1)
		w.i16(d.ErrorCode)
		w.nstr(flex, d.ErrorMessage)
		d.MatchingAcls = make([]DeleteAclsMatchingAcl, vpNv(i == vr, "acls", 2))
		w.arr(flex, len(d.MatchingAcls))
		for j := range d.MatchingAcls {
			a := &d.MatchingAcls[j]
			a.ErrorCode, a.ErrorMessage = vpI16("acode"), vpNSv(i == vr && j == 0, "amsg", 0)
			a.ResourceType, a.ResourceName = AclsResourceType(vpI8("rtype")), vpS1("rname", 1)
			a.Principal, a.Host, a.Operation, a.PermissionType = vpS1("princ", 1), vpSv(i == vr, "host", 1), AclsOperation(vpI8("op")), AclsPermissionType(vpI8("perm"))
			w.i16(a.ErrorCode)
			w.nstr(flex, a.ErrorMessage)
			w.i8(int8(a.ResourceType))
			w.str(flex, a.ResourceName)
			if v >= 1 {
				a.PatternType = AclsPatternType(vpI8("ptype"))
				w.i8(int8(a.PatternType))
			}
			w.str(flex, a.Principal)
			w.str(flex, a.Host)
			w.i8(int8(a.Operation))
			w.i8(int8(a.PermissionType))
			w.tags(flex, tp.in(1))
		}
		w.tags(flex, tp.in(2))
	}
	w.tags(flex, tp.in(3))
	vpDecode("DeleteAcls", func() {
		r, err := DecodeDeleteAclsResponse(vpFrame(w.b), v)
		vpDecOK("DeleteAcls", err)
		vpAssert(r.CorrelationID == corr && r.ThrottleTimeMs == throttle && len(r.FilterResults) == len(rs), "DeleteAcls response fields")
		for i, d := range r.FilterResults {
			e := rs[i]
			vpAssert(d.ErrorCode == e.ErrorCode && vpPtrEq(d.ErrorMessage, e.ErrorMessage) && len(d.MatchingAcls) == len(e.MatchingAcls), "DeleteAcls response filter result")
			for j, a := range d.MatchingAcls {
				b := e.MatchingAcls[j]
				vpAssert(a.ErrorCode == b.ErrorCode && vpPtrEq(a.ErrorMessage, b.ErrorMessage) && a.ResourceType == b.ResourceType && a.ResourceName == b.ResourceName && a.PatternType == b.PatternType && a.Principal == b.Principal && a.Host == b.Host && a.Operation == b.Operation && a.PermissionType == b.PermissionType, "DeleteAcls response acl")
			}
		}
	})
	vpReach("end")
}
