package healer

import (
	"strconv"
	"strings"
)

// create-topic (partitions, replication factor, timeout), create-partitions (with count, timeout, dry run or not, and with assignments), delete-topics, alter-partition-reassignments,
// list-partition-reassignments and elect-leaders, with any letters as names and numbers from short lists; the controller answers, refuses, is down, or cuts its answer off.
func VP_C25_controller() {
	vpDelays(0)
	vpMapOrder(1)
	t, u := "t"+string([]byte{vpLetter("topic")}), "u"
	what := []int{0, 1, 3, 4, 8, 9, 10}[vpChoose("command", 7)]
	if what >= 8 { // JSON
		t = "tx"
	}
	n, ns := vpNum("n", 0, 3, 2147483647)
	timeout, ts := int32(30000), "30000"
	a := &vpAdminArgs{t: t, u: u, n: n, x: 2, y: 1}
	var args []string
	if what > 0 {
		timeout, ts = vpNum("timeout", 30000, 1, 70000)
	}
	a.timeout = timeout
	js := `[{"topic":"` + t + `","partition":` + ns
	switch what {
	case 0:
		args = []string{"delete-topics", "-t", t + "," + u}
	case 1:
		rf, rs := vpNum("rf", -1, 3)
		a.rf = int16(rf)
		args = []string{"create-topic", "-t", t, "--partitions", ns, "--replication-factor=" + rs, "--timeout", ts}
	case 3, 4:
		args = []string{"create-partitions", "-t", t, "--count", ns, "--timeout", ts}
		a.only = true
		if vpChoose("only", 2) == 0 {
			a.only = false
			args = append(args, "--validate-only=false")
		}
		if what == 4 {
			args = append(args, "--assignments", "2:1,1")
		}
	case 8:
		args = []string{"list-partition-reassignments", "--data", js + "}]", "--timeout.ms", ts}
	case 9:
		args = []string{"alter-partition-reassignments", "-r", js + `,"replicas":[2,3]}]`, "--timeout.ms", ts}
	case 10:
		args = []string{"elect-leaders", "-d", js + "}]", "--timeout.ms", ts}
	}
	op := vpAdminOps(nil, what, a)
	vpAdminCommand(vpAdminCluster(0, 19, 20, 37, 43, 45, 46), 2, op.api, op.flex, op.want, op.body, args...)
}

// create-topic and create-partitions with assignments of 1..3 partitions to 1..2 brokers each (one of them any of three ids): exactly those are asked for. What is not a list of broker ids, too large
// an id, or a contradiction (partitions or replication factor together with an assignment) is refused, and nothing is sent.
func VP_C25_assignment() {
	vpDelays(0)
	vpMapOrder(1)
	topic := vpChoose("topic", 2) == 1
	var parts [][]int32
	var text []string
	for i := 1 + vpChoose("partitions", 3); i > 0; i-- {
		id, s := vpNum("id", 1, 2, 2147483647)
		p := []int32{id}
		if vpChoose("replicas", 2) == 1 {
			p = append(p, 5)
			s += ":5"
		}
		parts = append(parts, p)
		text = append(text, s)
	}
	node := int32(2)
	s := strings.Join(text, ",")
	more := []string{}
	if len(parts) == 1 {
		switch vpChoose("bad", 7) {
		case 1:
			s, node = s+":x", 0
		case 2:
			s, node = "4294967297", 0
		case 3:
			s, node = s+":", 0
		case 4:
			vpAssume(topic)
			more, node = []string{"--partitions", "1"}, 0
		case 5:
			vpAssume(topic)
			more, node = []string{"--replication-factor", "1"}, 0
		case 6:
			vpAssume(!topic)
			s = "," + s
		}
	}
	if topic {
		order := func(w *vpW, l []int) {
			w.arr(false, 1)
			w.str(false, "t")
			w.i32(-1)
			w.i16(-1)
			w.arr(false, len(parts))
			for _, i := range l {
				w.i32(int32(i))
				w.i32s(false, parts[i])
			}
			w.arr(false, 0)
			w.i32(30000)
		}
		vpAdminCommand(vpAdminCluster(0, 19), node, 19, false, func(w *vpW) {
			// partitions may be listed in any order
			r := &vpRd{b: vpAdminBody}
			r.i32()
			r.str()
			r.i32()
			r.i16()
			var l []int
			seen := map[int32]bool{}
			for n := r.i32(); !r.bad && n > 0 && n <= int32(len(parts)); n-- {
				p := r.i32()
				vpAssert(int(p) < len(parts) && p >= 0 && !seen[p], "every partition is listed once")
				seen[p] = true
				l = append(l, int(p))
				for m := r.i32(); !r.bad && m > 0; m-- {
					r.i32()
				}
			}
			order(w, l)
		}, func(w *vpW, code int16) {
			w.arr(false, 1)
			w.str(false, "t")
			w.i16(code)
		}, append([]string{"create-topic", "-t", "t", "--replica-assignment", s}, more...)...)
		return
	}
	vpAdminCommand(vpAdminCluster(0, 37), node, 37, false, func(w *vpW) {
		w.arr(false, 1)
		w.str(false, "t")
		w.i32(9)
		w.arr(false, len(parts))
		for _, p := range parts {
			w.i32s(false, p)
		}
		w.i32(30000)
		w.bool(true)
	}, func(w *vpW, code int16) {
		w.i32(0)
		w.arr(false, 1)
		w.str(false, "t")
		w.i16(code)
		w.nstr(false, nil)
	}, "create-partitions", "-t", "t", "--count", "9", "--assignments", s)
}

// describe-acls, create-acls and delete-acls, each flag given or not: the enumerations with every value their help names, in lower or upper case, or none that exists; names (any letter, or with
// quotes and backslashes): the request says exactly that, absent names being null; text that stands for nothing is refused, and nothing is sent.
func VP_C25_acls() {
	vpDelays(0)
	vpMapOrder(1)
	what := vpChoose("command", 3)
	args := []string{[]string{"describe-acls", "create-acls", "delete-acls"}[what]}
	node := int32(2)
	vary := vpChoose("flag", 7)
	enum := func(i int, flag string, def int8, names ...string) int8 {
		if i != vary {
			return def
		}
		v := vpChoose(flag, len(names)+1)
		if v == len(names) {
			args = append(args, "--"+flag, "nothing")
			node = 0
			return 0
		}
		s := names[v]
		if vpChoose("upper", 2) == 1 {
			s = strings.ToUpper(s)
		}
		args = append(args, "--"+flag, s)
		return int8(v + 1)
	}
	name := func(i int, flag string) *string {
		if i == vary {
			switch vpChoose(flag, 5) {
			case 0:
				return nil
			case 1:
				s := `a"b`
				args = append(args, "--"+flag, s)
				return &s
			case 2:
				s := `a\u0062`
				args = append(args, "--"+flag, s)
				return &s
			case 3:
				s := ""
				args = append(args, "--"+flag, s)
				return &s
			}
		}
		s := "rx"
		if flag != "resource" {
			s = flag[:1] + string([]byte{vpLetter(flag)})
		}
		args = append(args, "--"+flag, s)
		return &s
	}
	rtype := enum(0, "resourcetype", 1, "any", "topic", "group", "cluster")
	ptype := enum(1, "patterntype", 2, "any", "match", "literal", "prefixed")
	op := enum(2, "operation", 1, "any", "all", "read", "write", "create", "delete", "alter", "describe", "cluster_action", "describe_configs", "alter_configs", "idempotent_write")
	perm := enum(3, "permissiontype", 1, "any", "deny", "allow")
	resource := name(4, "resource")
	principal := name(5, "principal")
	host := name(6, "host")
	str := func(w *vpW, s *string) {
		if what == 1 && s == nil {
			s = vpSP("")
		}
		w.nstr(false, s)
	}
	vpAdminCommand(vpAdminCluster(1, 29, 30, 31), node, uint16(29+what), false, func(w *vpW) {
		if what > 0 {
			w.arr(false, 1)
		}
		w.i8(rtype)
		str(w, resource)
		w.i8(ptype)
		str(w, principal)
		str(w, host)
		w.i8(op)
		w.i8(perm)
	}, func(w *vpW, code int16) {
		w.i32(0)
		switch what {
		case 0:
			w.i16(code)
			w.nstr(false, nil)
			w.arr(false, 0)
		case 1:
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
		case 2:
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
			w.arr(false, 0)
		}
	}, args...)
}

// describe-configs (all or two keys) and alter-configs of a topic (any letter), a broker or a broker's loggers (of either of two): a broker is asked about its own, the controller about topics; an unknown broker is an error.
func VP_C25_configs() {
	vpDelays(0)
	vpMapOrder(1)
	node := int32(2)
	kind := vpChoose("kind", 3)
	typ, num := []string{"topic", "broker", "broker_logger"}[kind], []int8{2, 4, 8}[kind]
	name := "t" + string([]byte{vpLetter("name")})
	if kind > 0 {
		node, name = vpNum("broker", 1, 2, 3)
		if node == 3 {
			node = 0
		}
	}
	args := []string{"--resource-type", typ, "--resource-name", name}
	if vpChoose("alter", 2) == 1 {
		v := string([]byte{'v', vpLetter("value")})
		vpAdminCommand(vpAdminCluster(0, 44), node, 44, false, func(w *vpW) {
			w.arr(false, 1)
			w.i8(num)
			w.str(false, name)
			w.arr(false, 1)
			w.str(false, "k")
			w.i8(0)
			w.nstr(false, &v)
			w.bool(false)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.i16(code)
			w.nstr(false, nil)
			w.i8(num)
			w.str(false, name)
		}, append([]string{"alter-configs", "--config-name", "k", "--config-value", v}, args...)...)
		return
	}
	keys := vpChoose("keys", 2) == 1
	if keys {
		args = append(args, "--keys", "k1", "--keys", "k2")
	}
	vpAdminCommand(vpAdminCluster(0, 32), node, 32, false, func(w *vpW) {
		w.arr(false, 1)
		w.i8(num)
		w.str(false, name)
		if keys {
			w.arr(false, 2)
			w.str(false, "k1")
			w.str(false, "k2")
		} else {
			w.arr(false, -1)
		}
	}, func(w *vpW, code int16) {
		w.i32(0)
		w.arr(false, 1)
		w.i16(code)
		w.nstr(false, nil)
		w.i8(num)
		w.str(false, name)
		w.arr(false, 0)
	}, append([]string{"describe-configs"}, args...)...)
}

// delete-groups and describe-groups of a group (any letter): its coordinator is asked; a refusal is a failure.
func VP_C25_groups() {
	vpDelays(0)
	vpMapOrder(1)
	g := "g" + string([]byte{vpLetter("group")})
	if vpChoose("delete", 2) == 1 {
		vpAdminCommand(vpAdminCluster(0, 42), 2, 42, false, func(w *vpW) {
			w.arr(false, 1)
			w.str(false, g)
		}, func(w *vpW, code int16) {
			w.i32(0)
			w.arr(false, 1)
			w.str(false, g)
			w.i16(code)
		}, "delete-groups", "-g", g)
		return
	}
	vpAdminCommand(vpAdminCluster(0, 15), 2, 15, false, func(w *vpW) {
		w.arr(false, 1)
		w.str(false, g)
	}, func(w *vpW, code int16) {
		w.arr(false, 1)
		w.i16(code)
		w.str(false, g)
		w.str(false, "Stable")
		w.str(false, "consumer")
		w.str(false, "range")
		w.arr(false, 0)
	}, "describe-groups", "-g", g)
}

// list-groups of two brokers with a group (any letter) each: every group is printed under its broker; the command fails exactly if one of them refuses or is down. describe-logdirs of a topic, or of all: the broker that has it is asked, and its
// answer is printed.
func VP_C25_lists() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpAdminCluster(0, 16, 35)
	fault := vpChoose("fault", 3)
	at := int32(1 + vpChoose("at", 2))
	logdirs := vpChoose("logdirs", 2) == 1
	asked := 0
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 16:
			if fault == 1 && q.node == at {
				w.i16(15)
				w.arr(false, 0)
			} else {
				w.i16(0)
				w.arr(false, 1)
				w.str(false, "g"+strconv.Itoa(int(q.node)))
				w.str(false, "consumer")
			}
		case 35:
			asked++
			vpAssert(q.node == 1 && q.rd.i32() == 1 && q.rd.str() == "t" && q.rd.i32() == 1 && q.rd.i32() == 0, "the log directories are asked for where they are")
			w.i32(0)
			w.arr(false, 1)
			w.i16(0)
			w.str(false, "/d")
			w.arr(false, 1)
			w.str(false, "t")
			w.arr(false, 1)
			w.i32(0)
			w.i64(77)
			w.i64(2)
			w.bool(false)
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	})
	k.install()
	boot := vpNodeAddr(1)
	if fault == 2 {
		n.mode[at] = 1
		boot = vpNodeAddr(3 - at)
	}
	if logdirs {
		vpAssume(fault == 0)
		args := []string{"describe-logdirs", "-b", boot}
		if vpChoose("topic", 2) == 1 {
			args = append(args, "-t", "t")
		}
		out, err := vpCLI(nil, args...)
		vpAssert(err == nil && asked == 1, "the log directories are looked up")
		vpAssert(strings.Contains(out, `"/d"`) && strings.Contains(out, `"size": 77`), "the log directories are printed")
		vpReach("end")
		return
	}
	out, err := vpCLI(nil, "list-groups", "-b", boot)
	vpAssert((err == nil) == (fault == 0), "the groups are listed exactly if every broker lists its own")
	if err == nil {
		i, j := strings.Index(out, `"g1"`), strings.Index(out, `"g2"`)
		vpAssert(strings.Index(out, `"1":`) < i && i < strings.Index(out, `"2":`) && strings.Index(out, `"2":`) < j, "every group is printed under its broker")
	}
	vpReach("end")
}
