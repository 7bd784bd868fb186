package healer

import (
	"strconv"
	"strings"
	"time"
)

// console-producer and simple-producer (to partition 0 or 1) with 0..3 lines on standard input, each empty or two bytes of which one is any but line ends and one is its number,
// the last one with or without line end, message.max.count 1, 2 or not given: every line is stored, unchanged, in order, once; the first, second or third
// batch is refused with an error code, or its connection is closed: the tool fails exactly then. A --config that is not JSON is refused.
func VP_C24_produce() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	st := vpNewStore(k)
	args := []string{"console-producer", "-b", vpNodeAddr(1), "-t", "t"}
	part := -1
	if vpChoose("simple", 2) == 1 {
		part = vpChoose("partition", 2)
		args = []string{"simple-producer", "-b", vpNodeAddr(1), "-t", "t", "--partition", strconv.Itoa(part)}
	}
	cfg := vpChoose("config", 4)
	switch cfg {
	case 1, 2:
		args = append(args, "--config", `{"message.max.count":"`+strconv.Itoa(cfg)+`"}`)
	case 3:
		args = append(args, "--config", `{"message.max.count"="1"}`)
	}
	n := vpChoose("lines", 4)
	var in []byte
	var want []vpSentRec
	for i := 0; i < n; i++ {
		var l []byte
		if vpChoose("empty", 2) == 0 {
			b := vpU8("byte")
			vpAssume(vpAnd(b != '\n', b != '\r'))
			l = []byte{b, byte('0' + i)}
		}
		want = append(want, vpSentRec{val: l})
		in = append(append(in, l...), '\n')
	}
	if n > 0 && len(want[n-1].val) > 0 && vpChoose("noeol", 2) == 1 {
		in = in[:len(in)-1]
	}
	fault, at := 0, 0
	if cfg != 3 {
		fault = vpChoose("fault", 3)
	}
	if fault > 0 {
		at = vpChoose("at", 3)
	}
	batches, failed := 0, false
	st.event = func(q *vpReq, s vpSent) (int16, bool, bool) {
		batches++
		if fault > 0 && batches == at+1 {
			failed = true
			if fault == 1 {
				return 7, false, true
			}
			return 0, false, false
		}
		return 0, true, true
	}
	_, err := vpCLI(in, args...)
	if cfg == 3 {
		vpAssert(err != nil && batches == 0, "a configuration that can not be understood is refused")
		vpReach("end")
		return
	}
	vpAssert((err != nil) == failed, "the tool fails exactly if a message was not stored")
	if !failed {
		var got []vpSentRec
		for p := int32(0); p < 2; p++ {
			vpAssert(part < 0 || int(p) == part || len(st.recs[p]) == 0, "messages are stored in the partition asked for")
			got = append(got, st.recs[p]...)
		}
		vpAssert(len(got) == len(want), "every line is stored once")
		for i := range got {
			vpAssert(i < len(want) && got[i].key == nil && vpEqBytes(got[i].val, want[i].val), "every line is stored unchanged, in order")
		}
	}
	vpReach("end")
}

// console-producer and simple-producer with four lines of 1000, 2000 or 3000 bytes each (more than their input buffer holds): every line is stored unchanged.
func VP_C24_long() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(1)
	st := vpNewStore(k)
	var in []byte
	var want [][]byte
	for i := 0; i < 4; i++ {
		l := []byte(strings.Repeat(string(rune('a'+i)), 1000+1000*vpChoose("length", 3)))
		want = append(want, l)
		in = append(append(in, l...), '\n')
	}
	_, err := vpCLI(in, []string{"console-producer", "simple-producer"}[vpChoose("simple", 2)], "-b", vpNodeAddr(1), "--topic", "t")
	vpAssert(err == nil, "the lines are produced")
	vpAssert(len(st.recs[0]) == 4, "every line is stored once")
	for i, r := range st.recs[0] {
		vpAssert(vpEqBytes(r.val, want[i]), "every line is stored unchanged")
	}
	vpReach("end")
}

// simple-consumer of partition 0 or 1 from offset 10 (asked for as such or as the earliest one), 11 or 12, of at most 1, 2 or any number of messages, up to offset 13 or without end, printing offsets or not: the log having a gap at 12 and 13 or not: it prints exactly those messages'
// values (one byte of any letter each), in order. Without a topic it fails.
func VP_C24_simple() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	part := vpChoose("partition", 2)
	var vals []byte
	var recs []byte
	offs := []int{10, 11, 12, 13, 14}
	if vpChoose("gap", 2) == 1 { // compacted
		offs = []int{10, 11, 14}
	}
	for i, o := range offs {
		vals = append(vals, vpLetter("value"))
		recs = append(recs, vpRecBytes(0, 0, int32(o-10), nil, vals[i:i+1], nil)...)
	}
	batch := vpBatchBytes(vpBatchMeta{base: 10, magic: 2, last: 4, baseTs: 5, maxTs: 5, pid: -1, seq: -1, count: int32(len(offs))}, recs)
	idle := 0
	min := int32(1)
	k.handle = func(q *vpReq) ([]byte, bool) {
		switch q.api {
		case 2:
			return vpOffsetsAnswer(q, 0, 10, 15), true
		case 1:
			f := vpParseFetch(q)
			vpAssert(f.ok && f.topic == "t" && f.part == int32(part), "the partition asked for is read")
			vpAssert(min == 1 || f.minBytes == min, "the configuration given is used")
			if f.offset >= 15 {
				idle++
				vpAssert(idle < 20, "the tool ends when it has printed what was asked for")
				time.Sleep(500 * time.Millisecond)
				return vpFetchAnswer(q, f, 0, nil), true
			}
			return vpFetchAnswer(q, f, 0, batch), true
		}
		return nil, false
	}
	k.install()
	if vpChoose("topic", 2) == 0 {
		_, err := vpCLI(nil, "simple-consumer", "-b", vpNodeAddr(1))
		vpAssert(err != nil, "a topic has to be given")
		vpReach("end")
		return
	}
	start := []string{"-2", "10", "11", "12"}[vpChoose("offset", 4)]
	from, _ := strconv.Atoi(start)
	if from == -2 {
		from = 10
	}
	args := []string{"simple-consumer", "-b", vpNodeAddr(1), "-t", "t", "--partition", strconv.Itoa(part), "--offset", start}
	if from == 11 {
		min = 7
		args = append(args, "--config", `{"fetch.min.bytes":"7"}`)
	}
	end := 15
	max := vpChoose("max", 3)
	if max > 0 {
		args = append(args, "--max-messages", strconv.Itoa(max))
	} else {
		max = 9
	}
	if max == 9 || vpChoose("stop", 2) == 1 {
		args = append(args, "--stopoffset=13")
		end = 13
	} else {
		left := 0
		for _, o := range offs {
			if o >= from {
				left++
			}
		}
		vpAssume(left >= max)
	}
	print := vpChoose("printoffset", 2) == 1
	if !print {
		args = append(args, "--printoffset=false")
	}
	out, err := vpCLI(nil, args...)
	vpAssert(err == nil, "messages are consumed")
	want := ""
	for i, o := range offs {
		if o < from || o >= end || max == 0 {
			continue
		}
		max--
		if print {
			want += strconv.Itoa(o) + ": "
		}
		want += string(vals[i:i+1]) + "\n"
	}
	vpAssert(out == want, "exactly the messages asked for are printed")
	vpReach("end")
}

// console-consumer of a topic with two or three partitions, all of them or one, from the earliest offset; group-consumer, being given both partitions: n = 1..4 messages are printed, each with its partition's
// next offset and its own value, and the tool ends; what the group consumer printed is committed.
func VP_C24_consumers() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	const base = 'a' // values are their offsets
	g := vpNewGroup(k, base, 2)
	n := 1 + vpChoose("n", 4)
	for p := range g.taken {
		g.taken[p] = base + 2 // the tool takes them itself
	}
	fetches := 0
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api == 1 {
			fetches++
			vpAssert(fetches < 60, "the tool ends when it has printed what was asked for")
		}
		return g.handle(q)
	}
	group := vpChoose("group", 2) == 1
	args := []string{"console-consumer", "-b", vpNodeAddr(1), "-t", "t", "--config", `{"from.beginning":"true","auto.commit":"false"}`, "--max-messages", strconv.Itoa(n)}
	if group {
		g.session = 30 * time.Second
		g.give = []int32{0, 1}
		g.anyRate = true
		args = []string{"group-consumer", "-b", vpNodeAddr(1), "-t", "t", "-g", "g", "--config", `{"from.beginning":"true"}`, "--max-messages", strconv.Itoa(n)}
	} else {
		g.free = true
		g.assigned[0], g.assigned[1] = true, true
		if vpChoose("one", 2) == 1 {
			vpAssume(n <= 2)
			args = append(args, "--partitions", "1")
			g.assigned[0] = false
		}
	}
	k.install()
	out, err := vpCLI(nil, args...)
	vpAssert(err == nil, "messages are consumed")
	lines := strings.Split(out, "\n")
	vpAssert(len(lines) == n+1 && lines[n] == "", "as many messages as asked for are printed")
	next := map[int32]int64{0: base, 1: base}
	for _, l := range lines[:len(lines)-1] {
		if group {
			ok := false
			for p := int32(0); p < 2; p++ {
				if !ok && l == "t:"+strconv.Itoa(int(p))+":"+strconv.Itoa(int(next[p]))+": "+string([]byte{byte(next[p])}) {
					next[p]++
					ok = true
				}
			}
			vpAssert(ok, "messages are printed in order, with their values")
		} else {
			ok := false
			for p := int32(0); p < 2; p++ {
				if !ok && g.assigned[p] && l == strconv.Itoa(int(next[p]))+": "+string([]byte{byte(next[p])}) {
					next[p]++
					ok = true
				}
			}
			vpAssert(ok, "messages are printed in order, with their values")
		}
	}
	if group {
		vpAssert(g.gone, "the group is left")
		for p := int32(0); p < 2; p++ {
			vpAssert(g.committed[p] == next[p] || next[p] == base && g.committed[p] <= base, "what was printed is committed")
		}
	}
	vpReach("end")
}

// get-offsets of a topic with 1..3 partitions led by two brokers, timestamp -1 (also as the default), -2 or 1500, version 0 or 1: a line for every partition, in order; when one of them refuses with an error code, or is down, the tool fails.
func VP_C24_offsets() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(int32(1 + vpChoose("partitions", 3)))
	parts := k.topics[0].parts
	old := vpChoose("old", 2) == 1 // offsets without timestamps
	if old {
		k.ranges = map[uint16][2]uint16{2: {0, 0}}
	}
	ts := []string{"", "-1", "-2", "1500"}[vpChoose("timestamp", 4)]
	args := []string{"get-offsets", "-b", vpNodeAddr(1), "-t", "t"}
	want := ts
	if ts != "" {
		args = append(args, "--timestamp", ts)
	} else {
		want = "-1"
	}
	fault := vpChoose("fault", 3)
	at := parts[vpChoose("at", len(parts))]
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if q.api != 2 {
			return nil, false
		}
		return vpManyOffsets(q, func(p int32, t int64) (int64, int16) {
			vpAssert(strconv.Itoa(int(t)) == want, "the timestamp asked for is looked up")
			vpAssert(parts[p].leader == q.node, "the leaders are asked")
			if fault == 1 && p == at.id {
				return -1, 6
			}
			return 100 + int64(p), 0
		}), true
	})
	if fault == 2 {
		vpAssume(at.leader == 2)
		n.mode[2] = 1
	}
	k.install()
	out, err := vpCLI(nil, args...)
	vpAssert((err == nil) == (fault == 0), "the tool fails exactly if it can not get the offsets")
	if err == nil {
		s := ""
		lines := strings.Split(out, "\n")
		vpAssert(len(lines) == len(parts)+1, "the offset of every partition is printed")
		for i, p := range parts {
			if old {
				vpAssert(strings.HasPrefix(lines[i], "t:"+strconv.Itoa(int(p.id))+":") && strings.HasSuffix(lines[i], " "+strconv.Itoa(100+int(p.id))), "the offset of every partition is printed")
			}
			s += "t:" + strconv.Itoa(int(p.id)) + ":" + want + " " + strconv.Itoa(100+int(p.id)) + "\n"
		}
		vpAssert(old || out == s, "the offset of every partition is printed")
	}
	vpReach("end")
}

// reset-offset of 1..3 partitions (of all, of any subset of the first two, or of one that does not exist) to the offset (any) at timestamp -1, -2 or 1500: exactly those are committed, in one request, to the group's coordinator; when the lookup of an offset,
// of the coordinator, or the commit is refused with an error code, or a flag is missing, the tool fails.
func VP_C24_reset() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(int32(1 + vpChoose("partitions", 3)))
	parts := k.topics[0].parts
	ts := []string{"-1", "-2", "1500"}[vpChoose("timestamp", 3)]
	args := []string{"reset-offset", "-b", vpNodeAddr(1), "-t", "t", "-g", "g", "--timestamp", ts}
	chosen := map[int32]bool{}
	missing := false
	switch vpChoose("which", 5) {
	case 0:
		for _, p := range parts {
			chosen[p.id] = true
		}
	case 1:
		args = append(args, "-p", "0")
		chosen[0] = true
	case 2:
		vpAssume(len(parts) > 1)
		args = append(args, "--partitions=1")
		chosen[1] = true
	case 3:
		vpAssume(len(parts) > 1)
		args = append(args, "-p", "1,0")
		chosen[0], chosen[1] = true, true
	case 4:
		args = append(args, "-p", "0,7")
		missing = true
	}
	var off []int64
	for range parts {
		o := vpI64("offset")
		vpAssume(o >= 0)
		off = append(off, o)
	}
	fault := vpChoose("fault", 5)
	commits := 0
	k.handle = func(q *vpReq) ([]byte, bool) {
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 2:
			return vpManyOffsets(q, func(p int32, t int64) (int64, int16) {
				vpAssert(strconv.Itoa(int(t)) == ts, "the timestamp asked for is looked up")
				if fault == 1 && p == parts[len(parts)-1].id {
					return -1, 6
				}
				return off[p], 0
			}), true
		case 10:
			if fault != 2 {
				return nil, false
			}
			w.i16(15)
			w.i32(-1)
			w.str(false, "")
			w.i32(-1)
		case 8:
			commits++
			r := &vpRd{b: q.raw, o: q.rd.o}
			vpAssert(q.node == 2 && r.str() == "g", "the group's coordinator is told")
			if q.ver >= 1 {
				vpAssert(r.i32() == -1 && r.str() == "", "no member of the group commits")
			}
			if q.ver >= 2 {
				vpAssert(r.i64() == -1, "committed offsets are kept as long as the broker's configuration says")
			}
			vpAssert(r.i32() == 1 && r.str() == "t", "offsets of the topic are set")
			n := int(r.i32())
			vpAssert(!missing && n == len(chosen), "exactly the partitions asked for are set")
			w.arr(false, 1)
			w.str(false, "t")
			w.arr(false, n)
			seen := map[int32]bool{}
			for i := 0; i < n; i++ {
				p, o := r.i32(), r.i64()
				if q.ver == 1 {
					r.i64()
				}
				r.nstr()
				vpAssert(chosen[p] && !seen[p] && o == off[p], "exactly the partitions asked for are set, to the offset looked up")
				seen[p] = true
				w.i32(p)
				if fault == 3 && i == n-1 {
					w.i16(22)
				} else {
					w.i16(0)
				}
			}
			vpAssert(!r.bad && r.o == len(q.raw), "the request is complete")
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	}
	k.install()
	if fault == 4 { // the timestamp is missing
		args = args[:len(args)-2]
		vpAssume(len(args) == 7)
	}
	_, err := vpCLI(nil, args...)
	vpAssert((err == nil) == (fault == 0 && !missing), "the tool fails exactly if the offsets were not set")
	vpAssert(commits == 1 || commits == 0 && (fault > 0 || missing), "the offsets are set once")
	vpReach("end")
}

// get-pending of a group (given, or by a pattern that matches one of two, with special characters) for a topic of 2 partitions (given, or what the group is subscribed to): end offset, committed offset and their difference (lag) are
// printed for each partition, in order, and their sums; when any of it can not be looked up (error code of the offset, commit or group lookup), no line is printed.
func VP_C24_pending() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(2)
	k.apis = []uint16{2, 3, 9, 10, 15, 16}
	k.ranges = map[uint16][2]uint16{2: {0, 1}, 9: {0, 1}, 15: {0, 0}, 16: {0, 0}}
	if vpChoose("reversed", 2) == 1 {
		p := k.topics[0].parts
		p[0], p[1] = p[1], p[0]
	}
	committed := []int64{int64(vpChoose("committed", 3)) * 7, 11}
	end := []int64{20, 11 + int64(vpChoose("end", 2))}
	fault := vpChoose("fault", 4)
	subs := vpChoose("subs", 2) == 1
	group, pattern, other := "g", "g*", "other"
	switch vpChoose("names", 3) {
	case 1:
		group, pattern, other = "g.(x", "g.(*", "gx(x"
	case 2:
		group, pattern, other = "a-g", "*g", "a-gh"
	}
	k.handle = func(q *vpReq) ([]byte, bool) {
		r := &vpRd{b: q.raw, o: q.rd.o}
		w := &vpW{}
		w.u32(q.corr)
		switch q.api {
		case 2:
			return vpManyOffsets(q, func(p int32, t int64) (int64, int16) {
				vpAssert(t == -1, "the end offset is looked up")
				if fault == 1 && p == 1 {
					return -1, 6
				}
				return end[p], 0
			}), true
		case 9:
			vpAssert(q.node == 2 && r.str() == group && r.i32() == 1 && r.str() == "t", "the group's offsets are looked up at its coordinator")
			n := int(r.i32())
			w.arr(false, 1)
			w.str(false, "t")
			w.arr(false, n)
			for i := 0; i < n; i++ {
				p := r.i32()
				w.i32(p)
				if fault == 2 && p == 1 {
					w.i64(-1)
					w.str(false, "")
					w.i16(16)
				} else {
					w.i64(committed[p])
					w.str(false, "")
					w.i16(0)
				}
			}
		case 15:
			vpAssert(q.node == 2 && r.i32() == 1 && r.str() == group, "the group is described by its coordinator")
			w.arr(false, 1)
			if fault == 3 {
				w.i16(15)
			} else {
				w.i16(0)
			}
			w.str(false, group)
			w.str(false, "Stable")
			w.str(false, "consumer")
			w.str(false, "range")
			if fault == 3 {
				w.arr(false, 0)
				break
			}
			w.arr(false, 1)
			w.str(false, "m1")
			w.str(false, "c")
			w.str(false, "/h")
			w.bytes(false, nil)
			a := &vpW{}
			a.i16(0)
			a.arr(false, 1)
			a.str(false, "t")
			a.i32s(false, []int32{0, 1})
			a.bytes(false, nil)
			w.bytes(false, a.b)
		case 16:
			w.i16(0)
			if q.node == 1 {
				w.arr(false, 2)
				w.str(false, group)
				w.str(false, "consumer")
				w.str(false, other)
				w.str(false, "consumer")
			} else {
				w.arr(false, 0)
			}
		default:
			return nil, false
		}
		return vpFrame(w.b), true
	}
	k.install()
	args := []string{"get-pending", "-b", vpNodeAddr(1), "--total", "--header=false"}
	if vpChoose("pattern", 2) == 1 {
		args = append(args, "-g", pattern)
	} else {
		args = append(args, "-g", group)
	}
	if !subs {
		args = append(args, "-t", "t")
	}
	out, _ := vpCLI(nil, args...)
	want := ""
	if fault == 0 {
		var sum [3]int64
		for p := 0; p < 2; p++ {
			lag := end[p] - committed[p]
			want += "  t  " + group + "  " + strconv.Itoa(p) + "  " + strconv.Itoa(int(end[p])) + "  " + strconv.Itoa(int(committed[p])) + "  " + strconv.Itoa(int(lag))
			if subs {
				want += " m1"
			}
			want += "\n"
			sum[0] += end[p]
			sum[1] += committed[p]
			sum[2] += lag
		}
		want += "TOTAL  t  " + group + "  " + strconv.Itoa(int(sum[0])) + "  " + strconv.Itoa(int(sum[1])) + "  " + strconv.Itoa(int(sum[2])) + "\n"
	}
	// without the time each line starts with
	got := ""
	for _, l := range strings.SplitAfter(out, "\n") {
		if i := strings.Index(l, "  "); i > 0 && !strings.HasPrefix(l, "TOTAL") {
			l = l[i:]
		}
		got += l
	}
	vpAssert(got == want, "what is pending is printed, or nothing")
	vpReach("end")
}

// get-metadata of a topic of 1..3 partitions in the short format: every broker's address and every partition's leader's; when no broker answers any more, the tool fails.
func VP_C24_metadata() {
	vpDelays(0)
	vpMapOrder(1)
	k := vpCLICluster(int32(1 + vpChoose("partitions", 3)))
	calls := 0
	fault := vpChoose("fault", 2) == 1
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api == 3 {
			r := &vpRd{b: q.raw, o: q.rd.o}
			if r.i32() > 0 {
				vpAssert(r.str() == "t", "the topic asked for is looked up")
				calls++
				if fault {
					return nil, true
				}
			}
		}
		return nil, false
	}
	k.install()
	out, err := vpCLI(nil, "get-metadata", "-b", vpNodeAddr(1), "-t", "t", "--format", "cat")
	vpAssert((err != nil) == fault, "the tool fails exactly if it gets no metadata")
	vpAssert(calls > 0, "metadata is looked up")
	if err == nil {
		want := "brokers:\n1 b1:9092\n2 b2:9092\ntopics:\n"
		for _, p := range k.topics[0].parts {
			want += "t " + strconv.Itoa(int(p.id)) + " " + vpNodeAddr(p.leader) + "\n"
		}
		vpAssert(out == want, "brokers and leaders are printed")
	}
	vpReach("end")
}
