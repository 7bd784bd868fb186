package healer

// ApiVersions v0, SaslHandshake v0/v1, SaslAuthenticate v0: any error code, 0..3 API ranges,
// 0..2 mechanisms of 0..2 bytes, error message null/0..2 bytes, 0..2 auth bytes.
func VP_C04_conn() {
	corr, ec := vpU32("corr"), vpI16("err")
	w := &vpW{}
	w.u32(corr)
	w.i16(ec)
	switch vpChoose("api", 3) {
	case 0:
		vs := make([]APIVersion, vpN("apis", 3))
		w.arr(false, len(vs))
		for i := range vs {
			vs[i] = APIVersion{ApiKey(vpU16("key")), vpU16("min"), vpU16("max")}
			w.u16(uint16(vs[i].apiKey))
			w.u16(vs[i].minVersion)
			w.u16(vs[i].maxVersion)
		}
		vpDecode("ApiVersions", func() {
			r, err := newAPIVersionsResponse(vpFrame(w.b))
			vpDecOK("ApiVersions", err)
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec && len(r.APIVersions) == len(vs), "ApiVersions response fields")
			for i := range vs {
				vpAssert(r.APIVersions[i] == vs[i], "ApiVersions response range")
			}
		})
	case 1:
		ms := make([]string, vpN("mechs", 2))
		w.arr(false, len(ms))
		for i := range ms {
			ms[i] = vpS("mech", 2)
			w.str(false, ms[i])
		}
		vpDecode("SaslHandshake", func() {
			r, err := NewSaslHandshakeResponse(vpFrame(w.b))
			vpAssert((err == nil) == (ec == 0), "SaslHandshake decoding reports exactly the error code")
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec && vpStrsEq(r.EnabledMechanisms, ms), "SaslHandshake response fields")
		})
	case 2:
		msg, auth := vpNS("msg", 2), vpB("auth", 2)
		w.nstr(false, msg)
		w.bytes(false, auth)
		vpDecode("SaslAuthenticate", func() {
			r, err := NewSaslAuthenticateResponse(vpFrame(w.b))
			vpDecOK("SaslAuthenticate", err)
			vpAssert(r.CorrelationID == corr && r.ErrorCode == ec && vpStrEqN(r.ErrorMessage, msg) && vpEqBytes(r.SaslAuthBytes, auth), "SaslAuthenticate response fields")
		})
	}
	vpReach("end")
}

// Response header: every API key 0..46, any version 0..15, any correlation id, 0..2 tags:
// decoding follows the header version of Kafka's protocol and consumes exactly the header.
func VP_C04_header() {
	key := vpChoose("key", 47)
	v := uint16(vpInt("ver", 0, 15))
	ff := vpFlexFrom(key)
	if key == 18 {
		ff = -1 // ApiVersions always answers with header v0
	}
	flex := ff >= 0 && int(v) >= ff
	corr := vpU32("corr")
	var tg TaggedFields
	if flex {
		tg = vpTags("tags", 2)
	}
	w := &vpW{}
	w.respHeader(corr, flex, tg)
	n := len(w.b)
	w.raw(vpBytes("rest", 2))
	h, o := DecodeResponseHeader(w.b, uint16(key), v)
	vpAssert(o == n, "response header decoding consumes exactly the header")
	vpAssert(h.CorrelationID == corr && h.IsFlexible() == flex && vpTagsEq(h.TaggedFields, tg), "response header fields")
	vpReach("end")
}

// A response whose size field disagrees with its length (any size field, 12 further bytes of
// any value) is refused with an error by every decoder of the data and group APIs.
func VP_C04_size() {
	apis := []uint16{API_Heartbeat, API_ProduceRequest, API_MetadataRequest, API_ApiVersions, API_SaslHandshake, API_SaslAuthenticate, API_OffsetRequest, API_OffsetFetchRequest, API_FindCoordinator, API_JoinGroup, API_LeaveGroup, API_OffsetCommitRequest, API_DescribeGroups, API_SyncGroup, API_ListGroups}
	api := apis[vpChoose("api", len(apis))]
	data := vpBytes("data", 16)
	n := uint32(data[0])<<24 | uint32(data[1])<<16 | uint32(data[2])<<8 | uint32(data[3])
	vpAssume(n != 12)
	p := defaultReadParser{broker: &Broker{}, api: api, version: 0}
	vpNoPanic("decoding a response with a wrong size field", func() {
		_, err := p.Parse(data)
		vpAssert(err != nil, "a response with a wrong size field is refused")
	})
	vpReach("end")
}
