package healer

import (
	"encoding/base64"
	"strconv"
	"strings"
)

// --auth (user and password with any letter in them) or none, --get-allowed or not; GET, HEAD, OPTIONS, POST and DELETE with credentials that are right, wrong in the user's or the password's letter (any), cut off, of another scheme, not base64, or
// absent: exactly who may gets in. Without the right form of --auth the server does not start.
func VP_C26_auth() {
	vpDelays(0)
	vpMapOrder(1)
	u, p := vpLetter("user"), vpLetter("password")
	var args []string
	auth := vpChoose("auth", 2) == 1
	if auth {
		args = append(args, "--auth", "u"+string([]byte{u})+":p:"+string([]byte{p}))
	}
	get := vpChoose("get-allowed", 2) == 1
	if get {
		args = append(args, "--get-allowed")
	}
	q := &VpHTTPRequest{}
	m := vpChoose("method", 5)
	q.Method = []string{"GET", "HEAD", "OPTIONS", "POST", "DELETE"}[m]
	q.Path = []string{"/health", "/health", "/health", "/create-acls", "/delete-acls"}[m]
	ok := []int{200, 404, 404, 400, 400}[m] // bodies are missing
	right := true
	cu, cp := vpLetter("given user"), vpLetter("given password")
	cred := "u" + string([]byte{cu}) + ":p:" + string([]byte{cp})
	switch vpChoose("credentials", 6) {
	case 0:
		q.Auth = "Basic " + base64.StdEncoding.EncodeToString([]byte(cred))
		right = vpAnd(cu == u, cp == p)
	case 1:
		q.Auth, right = "Basic "+base64.StdEncoding.EncodeToString([]byte(cred[:2])), false
	case 2:
		q.Auth, right = "Bearer "+base64.StdEncoding.EncodeToString([]byte(cred)), false
	case 3:
		q.Auth, right = "Basic "+cred, false
	case 4:
		q.Auth, right = "Basic", false
	case 5:
		right = false
	}
	vpHTTP(q, args...)
	if vpOr(!auth, vpOr(right, vpAnd(get, m < 3))) {
		vpAssert(q.Code == ok, "who may, gets in")
	} else {
		vpAssert(q.Code == 401, "who may not, does not get in")
	}
	vpReach("end")
}

// One HTTP request that is to become one to a broker.
func vpAPI(k *vpCluster, node int32, op *vpAdmin, method, path, query, body string) {
	vpAdminRun(k, node, op.api, op.flex, op.want, op.body, func(bootstrap string) bool {
		q := vpHTTP(&VpHTTPRequest{Method: method, Path: path, Query: "bootstrap=" + bootstrap + query, Body: body})
		vpAssert(k.open() == 0, "no connection is left behind")
		if op.api == 35 && vpAdminFault != 0 { // the brokers that answered are told about
			return false
		}
		if q.Code == 200 {
			return true
		}
		vpAssert(q.Code >= 400, "a failure is reported as one")
		return false
	})
}

// create-partitions, list-partition-reassignments (with and without a list), alter-partition-reassignments, elect-leaders, with numbers from short lists, timeouts given or not: the controller is asked for exactly that; the answer is 200 exactly if
// it does it. It refuses, is down, or cuts its answer off. A body that is not JSON and a timeout that is none are answered with 400, and nobody is asked.
func VP_C26_controller() {
	vpDelays(0)
	vpMapOrder(1)
	t := `t"x`
	n, ns := vpNum("n", 0, 3, 2147483647)
	a := &vpAdminArgs{t: t, n: n}
	var ts string
	a.timeout, ts = vpNum("timeout", 30000, 1)
	query := "&timeout=" + ts
	node := int32(2)
	what := []int{3, 8, 9, 10}[vpChoose("command", 4)]
	path, body := "", `[{"topic":"t\"x","partition":`+ns
	switch what {
	case 3:
		path, body, query = "/create-partitions", `{"topic":"t\"x","count":`+ns+`,"timeout":`+ts+`}`, ""
	case 8:
		path, body = "/list-partition-reassignments", body+"}]"
	case 9:
		path, body = "/alter-partition-reassignments", body+`,"replicas":[2,3]}]`
	case 10:
		path, body = "/elect-leaders", body+"}]"
	}
	op := vpAdminOps(nil, what, a)
	switch vpChoose("bad", 4) {
	case 1:
		body, node = body[:len(body)-1], 0
	case 2:
		vpAssume(what != 3)
		query, node = "&timeout=x", 0
	case 3: // everything
		vpAssume(what == 8)
		body, query = "", ""
		op.want = func(w *vpW) {
			w.i32(30000)
			w.arr(true, -1)
			w.u8(0)
		}
	}
	vpAPI(vpAdminCluster(0, 37, 43, 45, 46), node, op, "POST", path, query, body)
}

// describe-acls, create-acls and delete-acls with enumerations as names, and names with quotes and any that are absent: the controller is asked for exactly that. What names nothing is refused.
func VP_C26_acls() {
	vpDelays(0)
	vpMapOrder(1)
	what := vpChoose("command", 3)
	node := int32(2)
	enum := func(name string, l ...string) (int8, string) {
		i := vpChoose(name, len(l)+1)
		if i == len(l) {
			node = 0
			return 0, "nothing"
		}
		return int8(i + 1), l[i]
	}
	rt, rs := enum("type", "any", "topic", "group", "cluster")
	op, os := int8(3), "read"
	if node > 0 && vpChoose("vary", 2) == 1 {
		op, os = enum("operation", "any", "all", "read", "write")
	}
	body := `{"ResourceType":"` + rs + `","PatternType":"literal","Host":"h","Operation":"` + os + `","PermissionType":"allow"`
	var res, prin *string
	if vpChoose("resource", 2) == 1 {
		body += `,"ResourceName":"a\"b"`
		res = vpSP(`a"b`)
	}
	if vpChoose("principal", 2) == 1 {
		body += `,"Principal":"User:\u0061"`
		prin = vpSP("User:a")
	}
	body += "}"
	if what > 0 {
		body = "[" + body + "]"
	}
	str := func(w *vpW, s *string) {
		if what == 1 && s == nil {
			s = vpSP("")
		}
		w.nstr(false, s)
	}
	vpAPI(vpAdminCluster(1, 29, 30, 31), node, &vpAdmin{api: uint16(29 + what), want: func(w *vpW) {
		if what > 0 {
			w.arr(false, 1)
		}
		w.i8(rt)
		str(w, res)
		w.i8(3)
		str(w, prin)
		w.str(false, "h")
		w.i8(op)
		w.i8(3)
	}, body: func(w *vpW, code int16) {
		w.i32(0)
		switch what {
		case 0:
			w.i16(code)
			w.nstr(false, nil)
			w.arr(false, 0)
		case 1:
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
		case 2:
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
			w.arr(false, 0)
		}
	}}, []string{"POST", "POST", "DELETE"}[what], []string{"/describe-acls", "/create-acls", "/delete-acls"}[what], "", body)
}

// the configuration of a topic (all of it, one key) and of a broker (either of two, or one that does not exist) is read, one key of a topic's is set; a group is described; a topic's log directories are read.
func VP_C26_one() {
	vpDelays(0)
	vpMapOrder(1)
	node := int32(2)
	kind := vpChoose("kind", 6)
	name, num := "t", int8(2)
	method, path, body := "GET", "", ""
	var keys []string
	op := &vpAdmin{api: 32, want: func(w *vpW) {
		w.arr(false, 1)
		w.i8(num)
		w.str(false, name)
		if keys == nil {
			w.arr(false, -1)
		} else {
			w.arr(false, 1)
			w.str(false, keys[0])
		}
	}, body: func(w *vpW, code int16) {
		w.i32(0)
		w.arr(false, 1)
		w.i16(code)
		w.nstr(false, nil)
		w.i8(num)
		w.str(false, name)
		w.arr(false, 0)
	}}
	switch kind {
	case 0:
		path = "/configs/topic/t"
	case 1:
		node, name = vpNum("broker", 1, 2, 3)
		if node == 3 {
			node = 0
		}
		num, path = 4, "/configs/broker/"+name
	case 2:
		path, keys = "/topic/t/config/k", []string{"k"}
	case 3:
		v := "v" + string([]byte{vpLetter("value")})
		method, path = "POST", "/topic/t/config/k/"+v
		op = &vpAdmin{api: 44, want: func(w *vpW) {
			w.arr(false, 1)
			w.i8(2)
			w.str(false, "t")
			w.arr(false, 1)
			w.str(false, "k")
			w.i8(0)
			w.nstr(false, &v)
			w.bool(false)
		}, body: func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
			w.i8(2)
			w.str(false, "t")
		}}
	case 4:
		g := "g" + string([]byte{vpLetter("group")})
		path = "/group/" + g
		op = &vpAdmin{api: 15, want: func(w *vpW) {
			w.arr(false, 1)
			w.str(false, g)
		}, body: func(w *vpW, code int16) {
			w.arr(false, 1)
			w.i16(code)
			w.str(false, g)
			w.str(false, "Stable")
			w.str(false, "consumer")
			w.str(false, "range")
			w.arr(false, 0)
		}}
	case 5:
		node = 1
		path = "/topic/t/logdirs"
		if vpChoose("post", 2) == 1 {
			method, path, body = "POST", "/describe-logdirs", `{"topics":["t"]}`
		}
		op = &vpAdmin{api: 35, want: func(w *vpW) {
			w.arr(false, 1)
			w.str(false, "t")
			w.i32s(false, []int32{0})
		}, body: func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.i16(code)
			w.str(false, "/d")
			w.arr(false, 1)
			w.str(false, "t")
			w.arr(false, 1)
			w.i32(0)
			w.i64(1)
			w.i64(2)
			w.bool(false)
		}}
	}
	vpAPI(vpAdminCluster(0, 15, 32, 35, 44), node, op, method, path, "", body)
}

// what a group has not consumed of a topic of two partitions, led by two brokers (committed 0, 7 or 14 of 20; all or all but one of another), its offsets, and all groups: the answer is 200 and right, or a failure if a broker
// refuses (any one partition, the coordinator) or is down.
func VP_C26_offsets() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	k.apis = []uint16{2, 3, 9, 10, 16}
	k.ranges = map[uint16][2]uint16{2: {0, 1}, 9: {0, 1}, 16: {0, 0}}
	what := vpChoose("what", 3)
	committed := []int64{int64(vpChoose("committed", 3)) * 7, 11}
	end := []int64{20, 11 + int64(vpChoose("end", 2))}
	fault := vpChoose("fault", 4)
	at := int32(vpChoose("at", 2))
	ts := int64(-1)
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		r := &vpRd{b: q.raw, o: q.rd.o}
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 2:
			return vpManyOffsets(q, func(p int32, t int64) (int64, int16) {
				vpAssert(t == ts && q.node == 1+p, "the offset asked for is looked up at the leader")
				if fault == 1 && p == at {
					return -1, 6
				}
				return end[p], 0
			}), true
		case 9:
			vpAssert(q.node == 2 && r.str() == "g" && r.i32() == 1 && r.str() == "t", "the group's offsets are looked up at its coordinator")
			n := int(r.i32())
			w.arr(false, 1)
			w.str(false, "t")
			w.arr(false, n)
			for i := 0; i < n; i++ {
				p := r.i32()
				w.i32(p)
				if fault == 2 && p == at {
					w.i64(-1)
					w.str(false, "")
					w.i16(16)
				} else {
					w.i64(committed[p])
					w.str(false, "")
					w.i16(0)
				}
			}
		case 16:
			if fault == 1 && q.node == 1+at {
				w.i16(15)
				w.arr(false, 0)
				break
			}
			w.i16(0)
			w.arr(false, 1)
			w.str(false, "g"+strconv.Itoa(int(q.node)))
			w.str(false, "consumer")
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	})
	k.install()
	bootstrap := vpNodeAddr(1)
	if fault == 3 {
		n.mode[1+at] = 1
		bootstrap = vpNodeAddr(2 - at)
	}
	q := &VpHTTPRequest{Method: "GET", Query: "bootstrap=" + bootstrap}
	want := ""
	failed := fault == 1 || fault == 3
	switch what {
	case 0:
		failed = failed || fault == 2
		q.Path = "/group/g/pending/t"
		for p := 0; p < 2; p++ {
			want += ",{" + `"partition":` + strconv.Itoa(p) + `,"offset":` + strconv.Itoa(int(end[p])) + `,"committed":` + strconv.Itoa(int(committed[p])) + `,"lag":` + strconv.Itoa(int(end[p]-committed[p])) + "}"
		}
	case 1:
		ts = []int64{-1, -2, 1500}[vpChoose("timestamp", 3)]
		q.Path, q.Query = "/topic/t/offsets", q.Query+"&timestamp="+strconv.Itoa(int(ts))
	case 2:
		q.Path = "/groups"
	}
	vpHTTP(q)
	vpAssert(k.open() == 0, "no connection is left behind")
	vpAssert((q.Code == 200) == !failed, "the answer is 200 exactly if the brokers answered")
	vpAssert(q.Code == 200 || q.Code >= 400, "a failure is reported as one")
	if !failed && what == 0 {
		vpAssert(q.Out == "["+want[1:]+"]", "what is pending is told")
	}
	if !failed && what == 1 {
		i, j := strings.Index(q.Out, `"Partition":0`), strings.Index(q.Out, `"Partition":1`)
		vpAssert(i > 0 && j > i, "every partition is told about, in order")
		a, b := strings.Index(q.Out, strconv.Itoa(int(end[0]))), strings.LastIndex(q.Out, strconv.Itoa(int(end[1])))
		vpAssert(a > i && a < j && b > j, "every partition's offset is told")
	}
	if !failed && what == 2 {
		i, j := strings.Index(q.Out, `"g1"`), strings.Index(q.Out, `"g2"`)
		vpAssert(strings.Index(q.Out, `"1":`) < i && i < strings.Index(q.Out, `"2":`) && strings.Index(q.Out, `"2":`) < j, "every group is listed under its broker")
	}
	vpReach("end")
}

// every request, when no broker can be reached, or the one that can be reached closes the connection: a failure is answered, no connection is left behind.
func VP_C26_down() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	n := vpNewNodes(k, nil)
	n.mode[1] = 1
	if vpChoose("closes", 2) == 1 {
		n.mode[1] = 0
		k.handle = func(q *vpReq) ([]byte, bool) { return nil, true }
	}
	k.install()
	post := []string{"/alter-partition-reassignments", "/elect-leaders", "/list-partition-reassignments", "/create-partitions", "/describe-logdirs", "/describe-acls", "/create-acls"}
	get := []string{"/metadata", "/topic/t/offsets", "/topic/t/logdirs", "/topic/t/config/k", "/configs/topic/t", "/configs/broker/1", "/groups", "/group/g", "/group/g/pending/t"}
	q := &VpHTTPRequest{Query: "bootstrap=" + vpNodeAddr(1) + "&timeout=1000&timestamp=-1", Body: "[]"}
	i := vpChoose("what", len(post)+len(get)+2)
	if i >= 3 && i <= 5 {
		q.Body = "{}"
	}
	switch {
	case i < len(post):
		q.Method, q.Path = "POST", post[i]
	case i < len(post)+len(get):
		q.Method, q.Path = "GET", get[i-len(post)]
	case i == len(post)+len(get):
		q.Method, q.Path = "DELETE", "/delete-acls"
	default:
		q.Method, q.Path = "POST", "/topic/t/config/k/v"
	}
	vpHTTP(q)
	vpAssert(k.open() == 0, "no connection is left behind")
	vpAssert(q.Code == 500, "a failure is reported as one")
	vpReach("end")
}

// the metadata of no, one or two topics, one of which may not exist, and the broker that is asked may go away: exactly what was asked for is looked up and told.
func VP_C26_metadata() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	topics := [][]string{nil, {"t"}, {"t", "u"}, {"u"}}[vpChoose("topics", 4)]
	gone := vpChoose("gone", 2) == 1
	n := 0
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api != 3 {
			return nil, false
		}
		n++
		if n == 1 { // of the bootstrap
			return nil, false
		}
		r := &vpRd{b: q.raw, o: q.rd.o}
		m := int(r.i32())
		vpAssert(topics == nil && m <= 0 || m == len(topics), "the topics asked for are looked up")
		for i := 0; i < m; i++ {
			vpAssert(r.str() == topics[i], "the topics asked for are looked up")
		}
		return nil, gone
	}
	k.install()
	q := &VpHTTPRequest{Method: "GET", Path: "/metadata", Query: "bootstrap=" + vpNodeAddr(1)}
	for _, t := range topics {
		q.Query += "&topics=" + t
	}
	vpHTTP(q)
	vpAssert(k.open() == 0, "no connection is left behind")
	vpAssert(gone == (q.Code == 500) && gone == (q.Code != 200), "the answer is 200 exactly if a broker answered")
	if !gone {
		vpAssert(strings.Count(q.Out, `"TopicName"`) == len(topics) || topics == nil, "every topic is told about")
		for _, t := range topics {
			vpAssert(strings.Contains(q.Out, `"TopicName":"`+t+`"`), "every topic is told about")
		}
		vpAssert(strings.Contains(q.Out, `"PartitionID":1`) == (len(topics) > 0 && topics[0] == "t" || topics == nil), "every partition is told about")
	}
	vpReach("end")
}
