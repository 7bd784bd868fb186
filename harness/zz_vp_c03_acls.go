package healer

// DescribeAcls v0..v2: any resource/pattern/operation/permission code, resource name,
// principal and host null or 0..2 bytes.
func VP_C03_describe_acls() {
	v := uint16(vpChoose("ver", 3))
	flex := v >= 2
	client := vpS("client", 1)
	corr := vpU32("corr")
	r := &DescribeAclsRequest{RequestHeader: RequestHeader{APIKey: API_DescribeAcls, ClientID: &client}}
	r.ResourceType = AclsResourceType(vpI8("rtype"))
	r.ResourceName = vpNS("rname", 2)
	r.PatternType = AclsPatternType(vpI8("ptype"))
	r.Principal = vpNS("principal", 2)
	r.Host = vpNS("host", 2)
	r.Operation = AclsOperation(vpI8("op"))
	r.PermissionType = AclsPermissionType(vpI8("perm"))
	w := &vpW{}
	w.reqHeader(29, v, corr, &client, flex)
	w.i8(int8(r.ResourceType))
	w.nstr(flex, r.ResourceName)
	if v >= 1 {
		w.i8(int8(r.PatternType))
	}
	w.nstr(flex, r.Principal)
	w.nstr(flex, r.Host)
	w.i8(int8(r.Operation))
	w.i8(int8(r.PermissionType))
	w.tags(flex, nil)
	vpChkReq("DescribeAcls", vpEnc(r, corr, v), w)
	vpReach("end")
}

// CreateAcls v0..v3: 0..2 creations with any codes, names of 0..1 bytes.
func VP_C03_create_acls() {
	v := uint16(vpChoose("ver", 4))
	flex := v >= 2
	client := vpS("client", 1)
	corr := vpU32("corr")
	r := &CreateAclsRequest{RequestHeader: RequestHeader{APIKey: API_CreateAcls, ClientID: &client}}
	w := &vpW{}
	w.reqHeader(30, v, corr, &client, flex)
	n := vpN("acls", 2)
	w.arr(flex, n)
	for i := 0; i < n; i++ {
		a := AclCreation{
			ResourceType: AclsResourceType(vpI8("rtype")), ResourceName: vpS("rname", 1),
			PatternType: AclsPatternType(vpI8("ptype")), Principal: vpS("principal", 1), Host: vpS("host", 1),
			Operation: AclsOperation(vpI8("op")), PermissionType: AclsPermissionType(vpI8("perm"))}
		w.i8(int8(a.ResourceType))
		w.str(flex, a.ResourceName)
		if v >= 1 {
			w.i8(int8(a.PatternType))
		}
		w.str(flex, a.Principal)
		w.str(flex, a.Host)
		w.i8(int8(a.Operation))
		w.i8(int8(a.PermissionType))
		w.tags(flex, nil)
		r.Creations = append(r.Creations, a)
	}
	w.tags(flex, nil)
	vpNoPanic("encoding a CreateAcls request", func() {
		vpChkReq("CreateAcls", vpEnc(r, corr, v), w)
	})
	vpReach("end")
}

// DeleteAcls v0..v3: 0..3 filters with any codes; names null or 0..1 bytes in the first, fixed
// shapes (null name, 1-byte principal, empty host) in the others.
func VP_C03_delete_acls() {
	v := uint16(vpChoose("ver", 4))
	flex := v >= 2
	client := vpS("client", 1)
	corr := vpU32("corr")
	var fs []*DeleteAclsFilter
	w := &vpW{}
	w.reqHeader(31, v, corr, &client, flex)
	n := vpN("filters", 3)
	w.arr(flex, n)
	for i := 0; i < n; i++ {
		a := &DeleteAclsFilter{
			ResourceType:   AclsResourceType(vpI8("rtype")),
			PatternType:    AclsPatternType(vpI8("ptype")),
			Operation:      AclsOperation(vpI8("op")),
			PermissionType: AclsPermissionType(vpI8("perm"))}
		if i == 0 {
			a.ResourceName, a.Principal, a.Host = vpNS("rname", 1), vpNS("principal", 1), vpNS("host", 1)
		} else {
			p, h := vpS1("principal", 1), ""
			a.Principal, a.Host = &p, &h
		}
		w.i8(int8(a.ResourceType))
		w.nstr(flex, a.ResourceName)
		if v >= 1 {
			w.i8(int8(a.PatternType))
		}
		w.nstr(flex, a.Principal)
		w.nstr(flex, a.Host)
		w.i8(int8(a.Operation))
		w.i8(int8(a.PermissionType))
		w.tags(flex, nil)
		fs = append(fs, a)
	}
	w.tags(flex, nil)
	r := NewDeleteAclsRequest(client, fs)
	vpNoPanic("encoding a DeleteAcls request", func() {
		vpChkReq("DeleteAcls", vpEnc(r, corr, v), w)
	})
	vpReach("end")
}
