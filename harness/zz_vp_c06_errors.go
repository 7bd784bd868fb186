package healer

import "errors"

// vpResp6 builds a well-formed response of the API with 0..2 elements at each level (1 in the
// second element of an outer array); every error code in it is symbolic, all messages null or empty. It returns the codes in the response.
func vpResp6(api, v uint16) (w *vpW, codes []int16) {
	w = &vpW{}
	flex := false
	if f := vpFlexFrom(int(api)); f >= 0 && int(v) >= f {
		flex = true
	}
	w.respHeader(vpU32("corr"), flex, nil)
	code := func() {
		c := vpI16("code")
		codes = append(codes, c)
		w.i16(c)
	}
	var ms *string
	if vpChoose("msgs", 2) == 1 {
		ms = new(string)
	}
	msg := func(f bool) { w.nstr(f, ms) }
	nested := 0
	each := func(f bool, body func()) {
		n := 1
		if nested < 2 {
			n = vpN("n", 2)
		}
		nested++
		w.arr(f, n)
		for i := 0; i < n; i++ {
			body()
		}
	}
	s := func() { w.str(flex, "x") }
	tags := func() { w.tags(flex, nil) }
	throttle := func() { w.i32(0) }
	switch api {
	case API_Heartbeat, API_LeaveGroup:
		code()
	case API_ProduceRequest:
		each(flex, func() {
			s()
			each(flex, func() {
				w.i32(0)
				code()
				w.i64(0)
				if v >= 9 {
					w.i64(0)
					w.i64(0)
					w.arr(true, 0)
					w.nstr(true, nil)
				}
				tags()
			})
			tags()
		})
		if v >= 9 {
			throttle()
			tags()
		}
	case API_MetadataRequest:
		if v >= 3 {
			throttle()
		}
		w.arr(false, 0)
		if v >= 2 {
			w.nstr(false, nil)
		}
		if v >= 1 {
			w.i32(0)
		}
		each(false, func() {
			code()
			w.str(false, "x")
			if v >= 1 {
				w.bool(false)
			}
			each(false, func() {
				code()
				w.i32(0)
				w.i32(0)
				if v >= 7 {
					w.i32(0)
				}
				w.arr(false, 0)
				w.arr(false, 0)
				if v >= 5 {
					w.arr(false, 0)
				}
			})
		})
	case API_ApiVersions:
		code()
		w.arr(false, 0)
	case API_SaslHandshake:
		code()
		w.arr(false, 0)
	case API_SaslAuthenticate:
		code()
		msg(false)
		w.i32(0)
	case API_OffsetRequest:
		k := 0
		each(false, func() {
			w.str(false, [...]string{"x", "y"}[k%2])
			k++
			each(false, func() {
				w.i32(0)
				code()
				if v == 0 {
					w.arr(false, 1)
					w.i64(0)
				} else {
					w.i64(0)
					w.i64(0)
				}
			})
		})
	case API_OffsetFetchRequest:
		each(false, func() {
			w.str(false, "x")
			each(false, func() {
				w.i32(0)
				w.i64(0)
				w.nstr(false, nil)
				code()
			})
		})
	case API_FindCoordinator:
		code()
		w.i32(0)
		w.str(false, "h")
		w.i32(9092)
	case API_JoinGroup:
		code()
		w.i32(1)
		for i := 0; i < 3; i++ {
			w.str(false, "x")
		}
		w.arr(false, 0)
	case API_OffsetCommitRequest:
		each(false, func() {
			w.str(false, "x")
			each(false, func() {
				w.i32(0)
				code()
			})
		})
	case API_DescribeGroups:
		each(false, func() {
			code()
			for i := 0; i < 4; i++ {
				w.str(false, "x")
			}
			w.arr(false, 0)
		})
	case API_SyncGroup:
		code()
		w.i32(0)
	case API_ListGroups:
		if v >= 1 {
			throttle()
		}
		code()
		w.arr(flex, 0)
		tags()
	case API_DescribeConfigs:
		throttle()
		each(false, func() {
			code()
			msg(false)
			w.u8(2)
			w.str(false, "x")
			w.arr(false, 0)
		})
	case API_AlterConfigs, API_IncrementalAlterConfigs:
		throttle()
		each(false, func() {
			code()
			msg(false)
			w.u8(2)
			w.str(false, "x")
		})
	case API_AlterPartitionReassignments:
		throttle()
		code()
		msg(true)
		each(true, func() {
			s()
			each(true, func() {
				w.i32(0)
				code()
				msg(true)
				tags()
			})
			tags()
		})
		tags()
	case API_ListPartitionReassignments:
		throttle()
		code()
		msg(true)
		w.arr(true, 0)
		tags()
	case API_CreateTopics, API_DeleteTopics:
		each(false, func() {
			w.str(false, "x")
			code()
		})
	case API_Delete_Groups:
		throttle()
		each(false, func() {
			w.str(false, "x")
			code()
		})
	case API_DescribeAcls:
		throttle()
		code()
		msg(flex)
		w.arr(flex, 0)
		tags()
	case API_CreateAcls:
		throttle()
		each(flex, func() {
			code()
			msg(flex)
			tags()
		})
		tags()
	case API_DeleteAcls:
		throttle()
		each(flex, func() {
			code()
			msg(flex)
			each(flex, func() {
				code()
				msg(flex)
				w.u8(2)
				s()
				if v >= 1 {
					w.u8(3)
				}
				s()
				s()
				w.u8(2)
				w.u8(3)
				tags()
			})
			tags()
		})
		tags()
	case API_CreatePartitions:
		throttle()
		each(flex, func() {
			s()
			code()
			msg(flex)
			tags()
		})
		tags()
	case API_DescribeLogDirs:
		throttle()
		each(false, func() {
			code()
			w.str(false, "x")
			w.arr(false, 0)
		})
	case API_ElectLeaders:
		throttle()
		each(false, func() {
			w.str(false, "x")
			each(false, func() {
				w.i32(0)
				code()
				msg(false)
			})
		})
	}
	return
}

func vpErrs6(apis []uint16) {
	api := apis[vpChoose("api", len(apis))]
	vs, ok := availableVersions[api]
	v := uint16(0)
	if ok {
		v = vs[vpChoose("ver", len(vs))]
	}
	w, codes := vpResp6(api, v)
	any := false
	for _, c := range codes {
		any = vpOr(any, c != 0)
	}
	p := defaultReadParser{broker: &Broker{}, api: api, version: v}
	vpNoPanic("reading the outcome of a well-formed response", func() {
		r, err := p.Parse(vpFrame(w.b))
		if err == nil {
			err = r.Error()
		}
		vpAssert(vpImplies(any, err != nil), "an error code anywhere in the response surfaces as an error")
		vpAssert(vpImplies(err != nil, any), "a response without error codes is not an error")
		var ke KafkaError
		if err != nil && errors.As(err, &ke) {
			in := false
			for _, c := range codes {
				in = vpOr(in, int16(ke) == c)
			}
			vpAssert(in && ke != 0, "the reported code is one of those in the response")
		}
	})
	vpReach("end")
}

// Data and group APIs, every version healer negotiates: 0..2 topics x 0..2 partitions (or groups),
// every error code symbolic.
func VP_C06_data() {
	vpErrs6([]uint16{API_Heartbeat, API_LeaveGroup, API_ProduceRequest, API_MetadataRequest, API_ApiVersions, API_SaslHandshake, API_SaslAuthenticate, API_OffsetRequest, API_OffsetFetchRequest, API_FindCoordinator, API_JoinGroup, API_OffsetCommitRequest, API_DescribeGroups, API_SyncGroup, API_ListGroups})
}

// Admin APIs, every version healer negotiates: 0..2 elements at each level, every error code
// symbolic, every message null or empty.
func VP_C06_admin() {
	vpErrs6([]uint16{API_DescribeConfigs, API_AlterConfigs, API_IncrementalAlterConfigs, API_AlterPartitionReassignments, API_ListPartitionReassignments, API_CreateTopics, API_DeleteTopics, API_Delete_Groups, API_DescribeAcls, API_CreateAcls, API_DeleteAcls, API_CreatePartitions, API_DescribeLogDirs, API_ElectLeaders})
}
