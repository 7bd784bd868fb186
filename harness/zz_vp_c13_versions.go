package healer

// the versions of each API healer implements (all others: 0)
var vpImplemented = map[uint16][]uint16{
	0: {0, 9}, 1: {0, 7, 10}, 2: {0, 1}, 3: {1, 4, 7}, 8: {0, 2}, 9: {0, 1}, 16: {0, 1, 2, 3, 4, 5}, 17: {0, 1},
	29: {0, 1, 2}, 30: {0, 1, 2, 3}, 31: {0, 1, 2, 3}, 37: {0, 2},
}

func vpReqOf(api uint16) Request {
	switch api {
	case 0:
		return &ProduceRequest{RequestHeader: &RequestHeader{APIKey: 0}}
	case 1:
		r := NewFetchRequest("c", 100, 1)
		r.addPartition("t", 0, 5, 1000, -1)
		return r
	case 2:
		return NewOffsetsRequest("t", []int32{0}, -1, 1, "c")
	case 3:
		return NewMetadataRequest("c", []string{"t"})
	case 8:
		r := NewOffsetCommitRequest(uint16(vpChoose("given", 2)*2), "c", "g")
		r.AddPartiton("t", 0, 1, "")
		return r
	case 9:
		r := NewOffsetFetchRequest(uint16(vpChoose("given", 2)), "c", "g")
		r.AddPartiton("t", 0)
		return r
	case 10:
		return NewFindCoordinatorRequest("c", "g")
	case 12:
		return NewHeartbeatRequest("c", "g", 1, "m")
	case 16:
		return NewListGroupsRequest("c")
	case 17:
		return NewSaslHandShakeRequest("c", "PLAIN")
	case 20:
		r := NewDeleteTopicsRequest("c", []string{"t"}, 1)
		return &r
	case 31:
		return NewDeleteAclsRequest("c", nil)
	case 37:
		r := NewCreatePartitionsRequest("c", 1, false)
		return &r
	}
	return nil
}

// Each of 13 APIs, for every range of versions the broker may announce for it (any position in the list, also
// not announced at all), with any range announced for its neighbours: the request is sent in the highest
// version both sides have, whenever there is one; again after a reconnect to a broker with any other range.
func VP_C13_negotiate() {
	vpDelays(0)
	vpMapOrder(1)
	list := []uint16{0, 1, 2, 3, 8, 9, 10, 12, 16, 17, 20, 31, 37}
	api := list[vpChoose("api", len(list))]
	k := &vpCluster{nodes: []int32{1}, controller: 1, ranges: map[uint16][2]uint16{}}
	sym := func(name string) [2]uint16 {
		r := [2]uint16{vpU16(name + ".min"), vpU16(name + ".max")}
		vpAssume(vpAnd(r[0] <= r[1], r[1] <= 32767))
		return r
	}
	announced := true
	switch vpChoose("pos", 3) {
	case 0:
		k.apis = []uint16{api, 11, 18}
	case 1:
		k.apis = []uint16{11, 18, api}
	case 2:
		k.apis = []uint16{11, 18}
		announced = false
	}
	k.ranges[11], k.ranges[18] = sym("n1"), sym("n2")
	k.handle = func(q *vpReq) ([]byte, bool) { return nil, q.api != 18 }
	k.install()
	ask := func(b *Broker) {
		rg := k.ranges[api]
		n := len(k.log)
		b.RequestAndGet(vpReqOf(api))
		var q *vpReq
		for _, x := range k.log[n:] {
			if x.api == api {
				q = x
			}
		}
		vpAssert(q != nil, "the request is sent")
		impl := vpImplemented[api]
		if impl == nil {
			impl = []uint16{0}
		}
		common, best := false, uint16(0)
		for _, v := range impl {
			if announced && rg[0] <= v && v <= rg[1] {
				common, best = true, v
			}
		}
		vpAssert(!common || q.ver == best, "a request is sent in the highest version both sides have")
	}
	k.ranges[api] = sym("r")
	b, err := NewBroker(vpNodeAddr(1), 1, vpBrokerCfg())
	vpAssert(err == nil, "the broker is reached")
	ask(b)
	b.Close()
	k.ranges[api] = sym("s")
	ask(b)
	vpReach("end")
}

// Metadata, list-offsets, produce-like and list-groups requests whose answers differ between versions, any range announced by the
// broker: the answer, given in the version asked for, is understood; also after a reconnect to a
// broker with any other range.
func VP_C13_answers() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, ranges: map[uint16][2]uint16{}}
	op := vpChoose("op", 3)
	api := []uint16{3, 2, 16}[op]
	sym := func(name string) [2]uint16 {
		r := [2]uint16{vpU16(name + ".min"), vpU16(name + ".max")}
		vpAssume(vpAnd(r[0] <= r[1], r[1] <= 32767))
		ok := false
		for _, v := range vpImplemented[api] {
			ok = vpOr(ok, vpAnd(r[0] <= v, v <= r[1]))
		}
		vpAssume(ok)
		return r
	}
	k.apis = []uint16{api}
	x := vpI32("x")
	k.topics = []vpTopic{{"t", 0, []vpPart{{x, 1, 0}}}}
	k.handle = func(q *vpReq) ([]byte, bool) {
		switch q.api {
		case 2:
			return vpOffsetsAnswer(q, 0, 0, int64(x)), true
		case 16:
			w := &vpW{}
			flex := q.ver >= 3
			w.respHeader(q.corr, flex, nil)
			if q.ver >= 1 {
				w.i32(7)
			}
			w.i16(0)
			w.arr(flex, 1)
			w.str(flex, string([]byte{byte(x)}))
			w.str(flex, "consumer")
			if q.ver >= 4 {
				w.str(flex, "Stable")
			}
			if q.ver >= 5 {
				w.str(flex, "classic")
			}
			w.tags(flex, nil)
			w.tags(flex, nil)
			return vpFrame(w.b), true
		}
		return nil, false
	}
	k.install()
	ask := func(b *Broker) {
		switch op {
		case 0:
			r, err := b.requestMetaData("c", []string{"t"})
			vpAssert(err == nil && len(r.TopicMetadatas) == 1 && r.TopicMetadatas[0].TopicName == "t", "metadata is understood")
			vpAssert(len(r.TopicMetadatas[0].PartitionMetadatas) == 1 && r.TopicMetadatas[0].PartitionMetadatas[0].PartitionID == x && r.ControllerID == 1, "metadata is understood")
		case 1:
			r, err := b.requestOffsets("c", "t", []int32{0}, -1, 1)
			vpAssert(err == nil && len(r.TopicPartitionOffsets["t"]) == 1, "offsets are understood")
			vpAssert(int64(r.TopicPartitionOffsets["t"][0].GetOffset()) == int64(x), "offsets are understood")
		case 2:
			r, err := b.RequestListGroups("c")
			vpAssert(err == nil && len(r.Groups) == 1 && r.Groups[0].GroupID == string([]byte{byte(x)}), "groups are understood")
		}
	}
	k.ranges[api] = sym("r")
	b, err := NewBroker(vpNodeAddr(1), 1, vpBrokerCfg())
	vpAssert(err == nil, "the broker is reached")
	ask(b)
	b.Close()
	k.ranges[api] = sym("s")
	ask(b)
	vpReach("end")
}
