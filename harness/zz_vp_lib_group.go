package healer

import (
	"time"
)

// vpGroup is a group coordinator with one real member (healer) and possibly others that exist on paper only, and
// the partitions' leaders, for topic "t". It follows the group protocol and asserts that the member does too.
type vpGroup struct {
	k         *vpCluster
	logs      map[int32][]vpLogBatch
	committed map[int32]int64
	others    []string // other members
	lead      bool     // healer's member is made leader
	give      []int32  // partitions a follower is given
	gen       int32
	member    string
	ids       int
	joined    bool // a join has been answered, sync not yet
	synced    bool
	assigned  map[int32]bool
	gone      bool // left
	over      bool // nothing may be sent any more
	event     func(q *vpReq) (code int16, drop bool)
	reject    func(code int16) // told when a request has been refused
	joins     int
	syncs     int
	beats     int
	leaves    int
	lastBeat  time.Time
	session   time.Duration
	taken     map[int32]int64 // offset after the last message handed over
	onCommit  func(c vpCommit)
	anyRate   bool // heartbeats may come at any rate
	free      bool // offsets are committed by a simple consumer, outside of the group protocol
}

func vpNewGroup(k *vpCluster, base int64, parts int32) *vpGroup {
	g := &vpGroup{k: k, logs: map[int32][]vpLogBatch{}, committed: map[int32]int64{}, taken: map[int32]int64{}, assigned: map[int32]bool{}}
	for p := int32(0); p < parts; p++ {
		g.logs[p] = []vpLogBatch{vpMkBatch(base, base+1, 0, base, base+1)}
		g.committed[p] = -1
		g.taken[p] = base
	}
	k.handle = g.handle
	return g
}

func (g *vpGroup) simple(q *vpReq, code int16) []byte {
	w := &vpW{}
	w.u32(q.corr)
	w.i16(code)
	return vpFrame(w.b)
}

func (g *vpGroup) handle(q *vpReq) ([]byte, bool) {
	vpAssert(!g.over, "nothing is sent after Close has returned")
	r := &vpRd{b: q.raw, o: q.rd.o}
	switch q.api {
	case 8, 9, 11, 12, 13, 14: // group APIs
		code, drop := int16(0), false
		if q.node != g.k.coord {
			code = 16
		} else if g.event != nil {
			code, drop = g.event(q)
		}
		if drop {
			return nil, true
		}
		return g.group(q, r, code), true
	case 1:
		f := vpParseFetch(q)
		vpAssert(f.ok && f.topic == "t" && g.assigned[f.part], "only partitions that are assigned are fetched")
		recs := vpLogFrom(g.logs[f.part], f.offset, 9)
		if len(recs) == 0 {
			time.Sleep(500 * time.Millisecond)
		}
		return vpFetchAnswer(q, f, 0, recs), true
	case 2:
		return vpOffsetsAnswer(q, 0, g.logs[0][0].base, g.logs[0][0].last+1), true
	}
	return nil, false
}

func (g *vpGroup) group(q *vpReq, r *vpRd, code int16) []byte {
	w := &vpW{}
	w.u32(q.corr)
	name := r.str()
	vpAssert(name == "g", "group requests name the group")
	switch q.api {
	case 11: // JoinGroup
		session := r.i32()
		vpAssert(session == int32(g.session/time.Millisecond), "the configured session timeout is asked for")
		if q.ver >= 1 {
			r.i32()
		}
		member := r.str()
		known := member == ""
		for i := 1; i <= g.ids; i++ {
			known = known || member == "m"+string(rune('0'+i))
		}
		vpAssert(known, "a member joins with an id it was given")
		if member != "" && member != g.member && code == 0 {
			code = 25
		}
		vpAssert(r.str() == "consumer", "the protocol type is consumer")
		n := int(r.i32())
		proto, meta := "", []byte(nil)
		for i := 0; i < n; i++ {
			proto = r.str()
			meta = append([]byte{}, r.take(int(r.i32()))...)
		}
		vpAssert(n == 1 && proto == "range" && !r.bad && r.o == len(q.raw), "the range protocol is offered")
		m := &vpRd{b: meta}
		m.i16()
		vpAssert(m.i32() == 1 && m.str() == "t", "the member subscribes to its topic")
		g.assigned = map[int32]bool{}
		g.synced = false
		if code != 0 {
			if code == 25 {
				g.member = ""
			}
			w.i16(code)
			w.i32(-1)
			w.str(false, "")
			w.str(false, "")
			w.str(false, member)
			w.arr(false, 0)
			return vpFrame(w.b)
		}
		g.joins++
		g.gen++
		if member == "" {
			g.ids++
			g.member = "m" + string(rune('0'+g.ids))
		}
		g.joined, g.gone = true, false
		w.i16(0)
		w.i32(g.gen)
		w.str(false, "range")
		if g.lead {
			w.str(false, g.member)
		} else {
			w.str(false, "zz")
		}
		w.str(false, g.member)
		if g.lead {
			w.arr(false, 1+len(g.others))
			for _, id := range append([]string{g.member}, g.others...) {
				w.str(false, id)
				w.bytes(false, meta)
			}
		} else {
			w.arr(false, 0)
		}
		return vpFrame(w.b)
	case 14: // SyncGroup
		gen, member := r.i32(), r.str()
		vpAssert(gen == g.gen && member == g.member && g.joined, "a member syncs in the generation it has joined")
		n := int(r.i32())
		given := map[string][]byte{}
		for i := 0; i < n; i++ {
			id := r.str()
			given[id] = append([]byte{}, r.take(int(r.i32()))...)
		}
		vpAssert(!r.bad && r.o == len(q.raw), "a sync request is well-formed")
		vpAssert((n > 0) == g.lead, "only the leader assigns partitions")
		if code != 0 {
			w.i16(code)
			w.bytes(false, nil)
			if code == 25 {
				g.member = ""
			}
			return vpFrame(w.b)
		}
		var mine []byte
		if g.lead {
			vpAssert(n == 1+len(g.others), "the leader assigns to every member")
			mine = given[g.member]
		} else {
			a := &vpW{}
			a.i16(0)
			a.arr(false, 1)
			a.str(false, "t")
			a.i32s(false, g.give)
			a.bytes(false, nil)
			mine = a.b
		}
		g.assigned = map[int32]bool{}
		m := &vpRd{b: mine}
		m.i16()
		for t := int(m.i32()); t > 0; t-- {
			vpAssert(m.str() == "t", "only the topic's partitions are assigned")
			for p := int(m.i32()); p > 0; p-- {
				g.assigned[m.i32()] = true
			}
		}
		g.syncs++
		g.synced = true
		g.lastBeat = time.Now()
		w.i16(0)
		w.bytes(false, mine)
		return vpFrame(w.b)
	case 12: // Heartbeat
		gen, member := r.i32(), r.str()
		vpAssert(g.synced && gen == g.gen && member == g.member && !g.gone, "heartbeats name the member's generation")
		vpAssert(g.anyRate || time.Since(g.lastBeat) < g.session, "heartbeats come before the session times out")
		g.lastBeat = time.Now()
		g.beats++
		if code == 25 {
			g.member = ""
		}
		return g.simple(q, code)
	case 13: // LeaveGroup
		member := r.str()
		vpAssert(member == g.member && !g.gone, "a member leaves under its own id")
		if code == 0 {
			g.gone = true
			g.leaves++
		}
		return g.simple(q, code)
	case 8:
		c := vpParseCommit(q)
		vpAssert(c.ok && c.topic == "t", "commits name the partition")
		vpAssert(!g.gone, "nothing is committed after leaving")
		vpAssert(c.gen == g.gen && c.member == g.member || g.member == "" || g.free, "commits are made in the member's generation")
		vpAssert(g.assigned[c.part], "only assigned partitions are committed")
		vpAssert(vpAnd(c.off >= 0, c.off <= g.taken[c.part]), "a commit is not beyond what the user was given")
		if code == 0 && g.member == "" && !g.free {
			code = 25
		}
		if code == 0 {
			vpAssert(c.off >= g.committed[c.part], "commits do not go backwards")
			g.committed[c.part] = c.off
		}
		return vpCommitAnswer(q, c, code)
	case 9:
		rr := &vpRd{b: q.raw, o: q.rd.o}
		rr.str()
		rr.i32()
		rr.str()
		rr.i32()
		p := rr.i32()
		vpAssert(g.assigned[p], "offsets of assigned partitions are looked up")
		return vpOffsetFetchAnswer(q, g.committed[p], code)
	}
	return nil
}

// vpTake takes n messages off the channel. They come in offset order in each partition, without gap; without repetition if once.
func (g *vpGroup) take(ch <-chan *FullMessage, n int, once bool) {
	for i := 0; i < n; i++ {
		for p := range g.taken { // whichever comes next is being handed over
			g.taken[p]++
		}
		m := vpRecv(ch)
		for p := range g.taken {
			if p != m.PartitionID {
				g.taken[p]--
			}
		}
		p := m.PartitionID
		vpAssert(m.Error == nil && m.TopicName == "t", "messages are delivered")
		want := g.taken[p] - 1
		if once {
			vpAssert(m.Message.Offset == want, "messages come in order, each once")
		} else {
			vpAssert(m.Message.Offset <= want, "no message is skipped")
			if m.Message.Offset < want {
				g.taken[p]--
				i--
			}
		}
	}
}

func vpGroupCfg() ConsumerConfig {
	c := DefaultConsumerConfig()
	c.BootstrapServers = vpNodeAddr(1)
	c.GroupID = "g"
	c.FromBeginning = true
	c.SessionTimeoutMS = 6000
	c.AutoCommitIntervalMS = 1000
	return c
}

// an error code a coordinator answers with, or any code healer does not know
func vpGroupCode(name string, all bool) int16 {
	codes := []int16{14, 15, 16, 22, 25, 27}
	if all {
		codes = append(codes, -1, 7, 23, 24, 26, 28, 30)
	}
	if i := vpChoose(name, len(codes)+1); i < len(codes) {
		return codes[i]
	}
	c := vpI16(name + ".x")
	vpAssume(vpOr(c > 1000, c < -10))
	return c
}
