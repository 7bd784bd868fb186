package healer

import (
	"errors"
	"time"
)

// vpTopics serves the logs of several partitions and keeps the offsets a group has committed for them.
type vpTopPart struct {
	t string
	p int32
}
type vpTopics struct {
	k         *vpCluster
	logs      map[vpTopPart][]vpLogBatch
	committed map[vpTopPart]int64
	taken     map[vpTopPart]int64 // offset after the last message handed over
	may       map[vpTopPart]bool  // partitions the consumer may fetch
	group     string
	over      bool
	fail      func(q *vpReq) (code int16, drop bool)
}

func vpNewTopics(k *vpCluster, base int64, group string) *vpTopics {
	s := &vpTopics{k: k, group: group, logs: map[vpTopPart][]vpLogBatch{}, committed: map[vpTopPart]int64{}, taken: map[vpTopPart]int64{}, may: map[vpTopPart]bool{}}
	for _, t := range k.topics {
		for _, p := range t.parts {
			x := vpTopPart{t.name, p.id}
			s.logs[x] = []vpLogBatch{vpMkBatch(base, base+1, 0, base, base+1)}
			s.committed[x] = -1
			s.taken[x] = base
		}
	}
	k.handle = s.handle
	return s
}

func (s *vpTopics) leader(x vpTopPart) int32 {
	for _, t := range s.k.topics {
		for _, p := range t.parts {
			if t.name == x.t && p.id == x.p {
				return p.leader
			}
		}
	}
	return -1
}

func (s *vpTopics) handle(q *vpReq) ([]byte, bool) {
	vpAssert(!s.over, "nothing is sent after the consumer has been closed")
	if s.fail != nil {
		if code, drop := s.fail(q); drop {
			return nil, true
		} else if code != 0 && q.api == 10 {
			w := &vpW{}
			w.u32(q.corr)
			w.i16(code)
			w.i32(-1)
			w.str(false, "")
			w.i32(-1)
			return vpFrame(w.b), true
		}
	}
	r := &vpRd{b: q.raw, o: q.rd.o}
	switch q.api {
	case 10:
		vpAssert(r.str() == s.group && s.group != "", "the coordinator of the group is looked up")
	case 1:
		f := vpParseFetch(q)
		x := vpTopPart{f.topic, f.part}
		vpAssert(f.ok && s.may[x], "only partitions that were asked for are fetched")
		if s.leader(x) != q.node {
			return vpFetchAnswer(q, f, 6, nil), true
		}
		recs := vpLogFrom(s.logs[x], f.offset, 9)
		if len(recs) == 0 {
			time.Sleep(500 * time.Millisecond)
		}
		return vpFetchAnswer(q, f, 0, recs), true
	case 2:
		r.i32()
		r.i32()
		t := r.str()
		r.i32()
		l := s.logs[vpTopPart{t, r.i32()}]
		return vpOffsetsAnswer(q, 0, l[0].base, l[len(l)-1].last+1), true
	case 8:
		c := vpParseCommit(q)
		x := vpTopPart{c.topic, c.part}
		code := int16(0)
		if q.node != s.k.coord {
			code = 16
		}
		vpAssert(c.ok && c.group == s.group && s.may[x], "commits name the group and a partition of the consumer")
		vpAssert(vpAnd(c.off >= s.committed[x], c.off <= s.taken[x]), "a commit is not beyond what the user was given, and not backwards")
		if code == 0 {
			s.committed[x] = c.off
		}
		return vpCommitAnswer(q, c, code), true
	case 9:
		r.str()
		r.i32()
		t := r.str()
		r.i32()
		return vpOffsetFetchAnswer(q, s.committed[vpTopPart{t, r.i32()}], 0), true
	}
	return nil, false
}

// take receives messages for d, and checks that they come in order and once
func (s *vpTopics) take(ch <-chan *FullMessage, d time.Duration) {
	end := time.After(d)
	for {
		// a message may be handed over at any time
		for x := range s.taken {
			s.taken[x]++
		}
		select {
		case m := <-ch:
			x := vpTopPart{m.TopicName, m.PartitionID}
			vpAssert(m.Error == nil && s.may[x], "messages are those of the partitions asked for")
			vpAssert(m.Message.Offset == s.taken[x]-1, "the messages of a partition come in order, each once")
			for y := range s.taken {
				if y != x {
					s.taken[y]--
				}
			}
		case <-end:
			for x := range s.taken {
				s.taken[x]--
			}
			return
		}
	}
}

func vpMulti() *vpCluster {
	return &vpCluster{nodes: []int32{1, 2}, controller: 1, coord: 2, topics: []vpTopic{
		{"t", 0, []vpPart{{0, 1, 0}, {1, 2, 0}}},
		{"u", 0, []vpPart{{0, 2, 0}}},
		{"v", 0, []vpPart{{0, 1, 0}}},
	}}
}

// A Consumer of the topics t and u (given to NewConsumer or Subscribe), of t alone, or of assigned partitions (one of t and all of u), with a group or without, from the beginning or the end; nothing
// special happens, or a partition has no leader, for 3 s or all the time, or moves to another broker, a topic is unknown at first, the brokers do not answer the metadata request at first, or the group's coordinator is not available at first (any
// of the error codes of the group protocol, or unknown). Every record of exactly the partitions asked for is delivered, once, in order, with its topic and partition - whatever happens to another partition;
// what was delivered is committed when AwaitClose returns; nothing is sent or delivered afterwards; no connection stays open.
func VP_C23_consume() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	base := vpI64("base")
	vpAssume(vpAnd(base >= 0, base < 1<<40))
	k := vpMulti()
	group := ""
	if vpChoose("group", 2) == 1 {
		group = "g"
	}
	s := vpNewTopics(k, base, group)
	cfg := vpConsumerCfg()
	cfg.GroupID = group
	cfg.AutoCommit = true
	cfg.AutoCommitIntervalMS = 1000
	cfg.FromBeginning = vpChoose("end", 2) == 0
	fault := vpChoose("fault", 7)
	var lost vpTopPart
	topics := append([]vpTopic{}, k.topics...)
	first := 0
	switch fault {
	case 1, 2: // without leader
		lost = vpTopPart{"t", 1}
		k.topics[0] = vpTopic{"t", 0, []vpPart{{0, 1, 0}, {1, -1, 5}}}
	case 3:
		k.topics[1] = vpTopic{"u", 3, nil}
	case 4, 5: // no answer to the metadata request, or no coordinator
		code := int16(0)
		if fault == 5 {
			code = vpGroupCode("code", true)
		}
		s.fail = func(q *vpReq) (int16, bool) {
			if fault == 4 && q.api == 3 && first < 4 {
				first++
				return 0, first > 1
			}
			if fault == 5 && q.api == 10 && first < 3 {
				first++
				return code, false
			}
			return 0, false
		}
	}
	k.install()
	var c *Consumer
	var err error
	want := []vpTopPart{{"t", 0}, {"t", 1}, {"u", 0}}
	switch vpChoose("how", 4) {
	case 0:
		c, err = NewConsumer(cfg, "t", "u")
	case 1:
		c, err = NewConsumer(cfg, "v")
		if err == nil {
			c.Subscribe("u", "t")
		}
	case 2:
		c, err = NewConsumer(cfg)
		if err == nil {
			c.Assign(map[string][]int{"t": {1}, "u": nil})
		}
		want = want[1:]
	case 3:
		c, err = NewConsumer(cfg, "t")
		want = want[:2]
	}
	vpAssert(err == nil, "the consumer is created")
	for _, x := range want {
		s.may[x] = true
	}
	if !cfg.FromBeginning {
		for x := range s.taken {
			s.taken[x] = base + 2
		}
	}
	go func() {
		time.Sleep(3 * time.Second)
		if fault == 1 || fault == 3 {
			k.topics = topics
		}
		if fault == 6 {
			k.topics[0] = vpTopic{"t", 0, []vpPart{{0, 2, 0}, {1, 1, 0}}}
		}
		time.Sleep(17 * time.Second)
		if cfg.FromBeginning {
			return
		}
		for x := range s.logs { // records added while the consumer is there
			s.logs[x] = append(s.logs[x], vpMkBatch(base+2, base+3, 0, base+2, base+3))
		}
	}()
	ch := make(chan *FullMessage)
	go func() {
		_, err := c.Consume(ch)
		vpAssert(err == nil, "consuming starts")
	}()
	s.take(ch, 40*time.Second)
	for _, x := range want {
		if fault == 2 && x == lost {
			continue
		}
		if cfg.FromBeginning {
			vpAssert(s.taken[x] == base+2, "every record of the partitions asked for is delivered")
		} else {
			vpAssert(s.taken[x] == base+4, "every record of the partitions asked for is delivered")
		}
	}
	from := time.Now()
	c.AwaitClose(time.Minute)
	vpAssert(time.Since(from) < 2*time.Minute, "AwaitClose does not wait for long")
	s.over = true
	for _, x := range want {
		if group != "" && !(fault == 2 && x == lost) {
			vpAssert(s.committed[x] == s.taken[x], "what was delivered is committed")
		}
	}
	s.take(ch, 10*time.Second)
	vpAssert(k.open() == 0, "no connection is left open")
	vpReach("end")
}

// AwaitClose is called after 0, 1 or 3 messages, or while Consume has not got the metadata or the committed offset it needs, or a fetch is not answered for 20 s; every schedule with one delay: it returns in time, without panic, and nothing is delivered
// after it; Consume returns.
func VP_C23_close() {
	vpPreempt(0)
	vpC23Close(false)
}

// The same with one partition only, and every schedule with one delay and one preemption.
func VP_C23_closeOne() {
	vpPreempt(1)
	vpC23Close(true)
}

// The same with two partitions, and every schedule with one delay and one preemption.
func VP_C23_close_thorough() {
	vpPreempt(1)
	vpC23Close(false)
}

func vpC23Close(one bool) {
	vpMapOrder(1)
	vpSelects(0)
	vpDelays(1)
	base := vpI64("base")
	vpAssume(vpAnd(base >= 1, base < 1<<40))
	k := vpMulti()
	k.nodes = []int32{1}
	k.coord = 1
	k.topics = []vpTopic{{"t", 0, []vpPart{{0, 1, 0}, {1, 1, 0}}}}
	if one {
		k.topics[0].parts = k.topics[0].parts[:1]
	}
	s := vpNewTopics(k, base, "g")
	s.may[vpTopPart{"t", 0}], s.may[vpTopPart{"t", 1}] = true, true
	cfg := vpConsumerCfg()
	cfg.GroupID = "g"
	cfg.AutoCommit = true
	cfg.AutoCommitIntervalMS = 1000
	cfg.FromBeginning = true
	fault := [...]int{0, 1, 2, 4}[vpChoose("fault", 4)]
	started := false
	s.fail = func(q *vpReq) (int16, bool) {
		switch {
		case !started:
			return 0, false
		case fault == 1 && q.api == 3, fault == 2 && q.api == 9:
			return 0, true
		case fault == 4 && q.api == 1:
			time.Sleep(20 * time.Second)
			return 0, true
		}
		return 0, false
	}
	k.install()
	c, err := NewConsumer(cfg, "t")
	vpAssert(err == nil, "the consumer is created")
	started = true
	n := 0
	if fault == 0 {
		n = [...]int{0, 1, 3}[vpChoose("n", 3)]
		if one && n == 3 {
			n = 2
		}
	}
	ch := make(chan *FullMessage)
	done := make(chan bool, 1)
	go func() {
		_, err := c.Consume(ch)
		vpAssert(err == nil, "consuming is no error")
		done <- true
	}()
	next := map[int32]int64{0: base, 1: base}
	for x := range s.taken {
		s.taken[x] = base + 2
	}
	for i := 0; i < n; i++ {
		m := vpRecv(ch)
		vpAssert(m.Error == nil && m.Message.Offset == next[m.PartitionID], "the messages of a partition come in order, each once")
		next[m.PartitionID]++
	}
	if fault != 0 {
		time.Sleep(time.Second)
	}
	from := time.Now()
	vpNoPanic("closing", func() { c.AwaitClose(10 * time.Second) })
	vpAssert(time.Since(from) <= 11*time.Second, "AwaitClose returns when its time is over")
	if fault == 0 {
		vpAssert(time.Since(from) < 10*time.Second, "AwaitClose returns when the consumer has stopped")
		time.Sleep(time.Millisecond) // the brokers may not yet have seen what was sent before
		s.over = true
		for p := range next {
			vpAssert(next[p] == base || s.committed[vpTopPart{"t", p}] == next[p], "what was delivered is committed")
		}
	}
	select {
	case <-ch:
		vpAssert(false, "nothing is delivered after AwaitClose has returned")
	case <-time.After(time.Minute):
	}
	select {
	case <-done:
	default:
		vpAssert(false, "Consume returns")
	}
	s.over = true
	time.Sleep(time.Minute)
	vpReach("end")
}

var _ = errors.New
