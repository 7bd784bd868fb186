package healer

// one operation of the administration API: how it is called, what the broker is to be asked, what it answers
type vpAdmin struct {
	api  uint16
	flex bool
	call func(c *Client) error // checks the answer too
	want func(w *vpW)          // the request's body
	body func(w *vpW, code int16)
}

func vpSP(s string) *string         { return &s }
func vpAdminIDs(name string) string { return vpStr(name, 1) }

type vpAdminArgs struct {
	t, u       string
	n, timeout int32
	rf         int16
	only       bool
	x, y       int32
}

// any one-byte names and any numbers
func vpAdminAny() *vpAdminArgs {
	a := &vpAdminArgs{t: vpAdminIDs("topic"), u: vpAdminIDs("topic2"), n: vpI32("n"), timeout: vpI32("timeout"), rf: vpI16("rf"), only: vpBool("only"), x: vpI32("x"), y: vpI32("y")}
	vpAssume(a.t != a.u)
	return a
}

func vpAdminOps(b *Brokers, what int, a *vpAdminArgs) *vpAdmin {
	t, u, n, timeout := a.t, a.u, a.n, a.timeout
	msg := vpSP("m")
	switch what {
	case 0:
		return &vpAdmin{20, false, func(c *Client) error {
			r, err := c.DeleteTopics([]string{t, u}, timeout)
			if err == nil {
				vpAssert(len(r.Results) == 2 && r.Results[0].TopicName == t && r.Results[1].TopicName == u, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.arr(false, 2)
			w.str(false, t)
			w.str(false, u)
			w.i32(timeout)
		}, func(w *vpW, code int16) {
			w.arr(false, 2)
			w.str(false, t)
			w.i16(0)
			w.str(false, u)
			w.i16(code)
		}}
	case 1, 2:
		rf := a.rf
		names := []string{t}
		if what == 2 {
			names = append(names, u)
		}
		return &vpAdmin{19, false, func(c *Client) error {
			var r CreateTopicsResponse
			var err error
			if what == 1 {
				r, err = c.CreateTopic(t, n, rf, uint32(timeout))
			} else {
				r, err = c.CreateTopics(names, n, rf, uint32(timeout))
			}
			if err == nil {
				vpAssert(len(r.TopicErrors) == len(names) && r.TopicErrors[0].Topic == t, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.arr(false, len(names))
			for _, s := range names {
				w.str(false, s)
				w.i32(n)
				w.i16(rf)
				w.arr(false, 0)
				w.arr(false, 0)
			}
			w.i32(timeout)
		}, func(w *vpW, code int16) {
			w.arr(false, len(names))
			for i, s := range names {
				w.str(false, s)
				if i == len(names)-1 {
					w.i16(code)
				} else {
					w.i16(0)
				}
			}
		}}
	case 3, 4:
		only, x, y := a.only, a.x, a.y
		return &vpAdmin{37, false, func(c *Client) error {
			var r CreatePartitionsResponse
			var err error
			if what == 3 {
				r, err = c.CreatePartitions(t, n, uint32(timeout), only)
			} else {
				r, err = c.CreatePartitionsWithAssignments(t, n, [][]int32{{x, y}, {y}}, uint32(timeout), only)
			}
			if err == nil {
				vpAssert(len(r.Results) == 1 && r.Results[0].TopicName == t, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.arr(false, 1)
			w.str(false, t)
			w.i32(n)
			if what == 3 {
				w.arr(false, -1)
			} else {
				w.arr(false, 2)
				w.i32s(false, []int32{x, y})
				w.i32s(false, []int32{y})
			}
			w.i32(timeout)
			w.bool(only)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.str(false, t)
			w.i16(code)
			w.nstr(false, msg)
		}}
	case 5:
		return &vpAdmin{29, false, func(c *Client) error {
			r, err := c.DescribeAcls(DescribeAclsRequestBody{ResourceType: 2, ResourceName: &t, PatternType: 3, Principal: nil, Host: &u, Operation: 3, PermissionType: 2})
			if err == nil {
				vpAssert(len(r.Resources) == 1 && r.Resources[0].ResourceName == t && len(r.Resources[0].Acls) == 1 && r.Resources[0].Acls[0].Principal == u, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.i8(2)
			w.nstr(false, &t)
			w.nstr(false, nil)
			w.nstr(false, &u)
			w.i8(3)
			w.i8(2)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.i16(code)
			w.nstr(false, msg)
			w.arr(false, 1)
			w.i8(2)
			w.str(false, t)
			w.arr(false, 1)
			w.str(false, u)
			w.str(false, "*")
			w.i8(3)
			w.i8(2)
		}}
	case 6:
		return &vpAdmin{30, false, func(c *Client) error {
			r, err := c.CreateAcls([]AclCreation{{ResourceType: 2, ResourceName: t, PatternType: 3, Principal: u, Host: "*", Operation: 3, PermissionType: 2}, {ResourceType: 3, ResourceName: u, PatternType: 3, Principal: t, Host: "h", Operation: 4, PermissionType: 3}})
			if err == nil {
				vpAssert(len(r.Results) == 2, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.arr(false, 2)
			w.i8(2)
			w.str(false, t)
			w.str(false, u)
			w.str(false, "*")
			w.i8(3)
			w.i8(2)
			w.i8(3)
			w.str(false, u)
			w.str(false, t)
			w.str(false, "h")
			w.i8(4)
			w.i8(3)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 2)
			w.i16(0)
			w.nstr(false, nil)
			w.i16(code)
			w.nstr(false, nil)
		}}
	case 7:
		return &vpAdmin{31, false, func(c *Client) error {
			r, err := c.DeleteAcls([]*DeleteAclsFilter{{ResourceType: 2, ResourceName: &t, PatternType: 3, Principal: nil, Host: &u, Operation: 3, PermissionType: 2}})
			if err == nil {
				vpAssert(len(r.FilterResults) == 1 && len(r.FilterResults[0].MatchingAcls) == 1 && r.FilterResults[0].MatchingAcls[0].ResourceName == t, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.arr(false, 1)
			w.i8(2)
			w.nstr(false, &t)
			w.nstr(false, nil)
			w.nstr(false, &u)
			w.i8(3)
			w.i8(2)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.i16(0)
			w.nstr(false, nil)
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
			w.i8(2)
			w.str(false, t)
			w.str(false, "p")
			w.str(false, "h")
			w.i8(3)
			w.i8(2)
		}}
	case 8:
		return &vpAdmin{46, true, func(c *Client) error {
			q := NewListPartitionReassignmentsRequest("c", timeout)
			q.AddTP(t, n)
			r, err := c.ListPartitionReassignments(q)
			if err == nil {
				vpAssert(r != nil && len(r.Topics) == 1 && r.Topics[0].Name == t, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.i32(timeout)
			w.arr(true, 1)
			w.str(true, t)
			w.i32s(true, []int32{n})
			w.u8(0)
			w.u8(0)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.i16(code)
			w.nstr(true, nil)
			w.arr(true, 1)
			w.str(true, t)
			w.arr(true, 1)
			w.i32(n)
			w.i32s(true, []int32{1, 2})
			w.i32s(true, []int32{2})
			w.i32s(true, nil)
			w.u8(0)
			w.u8(0)
			w.u8(0)
		}}
	case 9:
		return &vpAdmin{45, true, func(c *Client) error {
			q := NewAlterPartitionReassignmentsRequest(timeout)
			q.AddAssignment(t, n, []int32{2, 3})
			r, err := b.AlterPartitionReassignments(&q)
			if err == nil {
				vpAssert(r != nil && len(r.Responses) == 1 && r.Responses[0].Name == t, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.i32(timeout)
			w.arr(true, 1)
			w.str(true, t)
			w.arr(true, 1)
			w.i32(n)
			w.i32s(true, []int32{2, 3})
			w.u8(0)
			w.u8(0)
			w.u8(0)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.i16(0)
			w.nstr(true, nil)
			w.arr(true, 1)
			w.str(true, t)
			w.arr(true, 1)
			w.i32(n)
			w.i16(code)
			w.nstr(true, nil)
			w.u8(0)
			w.u8(0)
			w.u8(0)
		}}
	case 10:
		return &vpAdmin{43, false, func(c *Client) error {
			q := NewElectLeadersRequest(timeout)
			q.Add(t, n)
			r, err := b.ElectLeaders(&q)
			if err == nil {
				vpAssert(r != nil && len(r.ReplicaElectionResults) == 1 && r.ReplicaElectionResults[0].Topic == t, "the answer is the broker's")
			}
			return err
		}, func(w *vpW) {
			w.arr(false, 1)
			w.str(false, t)
			w.i32s(false, []int32{n})
			w.i32(timeout)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.str(false, t)
			w.arr(false, 1)
			w.i32(n)
			w.i16(code)
			w.nstr(false, nil)
		}}
	}
	return nil
}
