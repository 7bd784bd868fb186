package healer

import (
	"time"
)

// vpCommits answers list-offsets, offset-fetch, offset-commit and fetch for one partition of a log and
// keeps the committed offset as a coordinator would.
type vpOffsets struct {
	log       []vpLogBatch
	committed int64
	commits   []vpCommit
	fail      func() (code int16, drop bool)
	max       int // batches per fetch
	group     string
	gen       int32
	member    string
	fetchVer  uint16
	over      bool
	check     func(c vpCommit)
}

func (o *vpOffsets) handle(q *vpReq) ([]byte, bool) {
	switch q.api {
	case 1:
		f := vpParseFetch(q)
		recs := vpLogFrom(o.log, f.offset, o.max)
		if len(recs) == 0 {
			time.Sleep(500 * time.Millisecond)
		}
		return vpFetchAnswer(q, f, 0, recs), true
	case 2:
		return vpOffsetsAnswer(q, 0, o.log[0].base, o.log[len(o.log)-1].last+1), true
	case 8:
		c := vpParseCommit(q)
		vpAssert(c.ok && c.group == o.group && c.topic == "t", "commits name the group and partition")
		vpAssert(c.gen == o.gen && c.member == o.member || c.ver == 0, "commits are made in the consumer's generation")
		vpAssert(c.off >= 0, "a committed offset is an offset")
		vpAssert(!o.over, "nothing is committed after the consumer has stopped")
		if o.check != nil {
			o.check(c)
		}
		if o.fail != nil {
			if code, drop := o.fail(); drop {
				return nil, true
			} else if code != 0 {
				return vpCommitAnswer(q, c, code), true
			}
		}
		o.commits = append(o.commits, c)
		o.committed = c.off
		return vpCommitAnswer(q, c, 0), true
	case 9:
		o.fetchVer = q.ver
		return vpOffsetFetchAnswer(q, o.committed, 0), true
	}
	return nil, false
}

// A consumer with a group and automatic commits (offsets in Kafka or ZooKeeper) on a log with a gap and a
// transaction marker, at any base offset; the user takes k = 0..4 messages off an unbuffered channel, waits for 0 or
// 2 commit intervals in between, and then stops the consumer; the first commits fail with any error code
// or a broken connection. A second consumer then goes on. No commit is beyond what was taken or goes backwards,
// after Stop the offset after the last message taken is committed, nothing is committed later, and no record
// is skipped by the second consumer.
func VP_C11_restart() {
	vpDelays(0)
	vpMapOrder(1)
	x := vpI64("base")
	vpAssume(vpAnd(x >= 0, x < 1<<40))
	// values are the low bytes of x: see below
	mk := func(d int64, last int64, attr int16, offs ...int64) vpLogBatch {
		return vpMkBatch(x+d, x+last, attr, offs...)
	}
	log := []vpLogBatch{mk(0, 1, 0, x, x+1), mk(2, 4, 0, x+2, x+4), mk(5, 5, 0x20, x+5), mk(6, 6, 0, x+6)}
	all := []int64{x, x + 1, x + 2, x + 4, x + 6}
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, coord: 2, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	o := &vpOffsets{log: log, committed: -1, max: 1 + 8*vpChoose("max", 2), group: "g", gen: -1}
	cfg := vpConsumerCfg()
	cfg.GroupID = "g"
	cfg.AutoCommit = true
	cfg.AutoCommitIntervalMS = 1000
	cfg.OffsetsStorage = vpChoose("storage", 2)
	fault := vpChoose("fault", 3)
	o.fail = func() (int16, bool) {
		f := fault
		fault = 0
		switch f {
		case 1:
			c := vpI16("code")
			vpAssume(c != 0)
			return c, false
		case 2:
			return 0, true
		}
		return 0, false
	}
	taken := x
	o.check = func(c vpCommit) {
		vpAssert(vpAnd(c.off >= o.committed, c.off <= taken), "a commit is not beyond what the user was given, and not backwards")
		vpAssert((c.ver == 0) == (o.fetchVer == 0), "commits go where the offsets are read from")
	}
	k.handle = o.handle
	k.install()
	n := vpChoose("n", 5)
	wait := vpChoose("wait", 2) * 2500
	ch := make(chan *FullMessage)
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	_, err = c.Consume(-2, ch)
	vpAssert(err == nil, "consuming starts")
	for i := 0; i < n; i++ {
		taken = all[i+1] // everything up to the next record
		m := vpRecv(ch)
		vpAssert(m.Error == nil && m.Message.Offset == all[i], "messages come in order")
		time.Sleep(time.Duration(wait) * time.Millisecond)
	}
	if fault != 0 {
		fault = 0 // the last commit is not disturbed
	}
	c.Stop()
	o.over = true
	if n > 0 {
		vpAssert(o.committed >= 0, "a stopped consumer has committed what it delivered")
		vpAssert(vpAnd(o.committed > all[n-1], o.committed <= all[n]), "a stopped consumer has committed what it delivered")
	}
	time.Sleep(10 * time.Second)
	o.over = false
	taken = x + 7
	c, err = NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	ch = make(chan *FullMessage)
	_, err = c.Consume(-2, ch)
	vpAssert(err == nil, "consuming starts")
	m := vpRecv(ch)
	vpAssert(m.Error == nil && m.Message.Offset == all[n], "a new consumer goes on after the last message of the stopped one")
	c.Stop()
	vpReach("end")
}

// The user takes 1 or 2 messages and stops the consumer at once, while commits are being made every
// millisecond: every schedule with at most two deviations from
// round-robin at blocking points and one preemption at any synchronisation point. Same claims, and nothing panics.
func VP_C11_stop() {
	vpMapOrder(1)
	vpDelays(2)
	vpPreempt(1)
	x := vpI64("base")
	vpAssume(vpAnd(x > 0, x < 1<<40))
	log := []vpLogBatch{vpMkBatch(x, x+2, 0, x, x+1, x+2)}
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	o := &vpOffsets{log: log, committed: -1, max: 9, group: "g", gen: -1}
	cfg := vpConsumerCfg()
	cfg.GroupID = "g"
	cfg.AutoCommit = true
	cfg.AutoCommitIntervalMS = 1
	cfg.OffsetsStorage = 1
	taken := x
	o.check = func(c vpCommit) {
		vpAssert(vpAnd(c.off >= o.committed, c.off <= taken), "a commit is not beyond what the user was given, and not backwards")
	}
	k.handle = o.handle
	k.install()
	ch := make(chan *FullMessage)
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	_, err = c.Consume(-2, ch)
	vpAssert(err == nil, "consuming starts")
	n := 1 + vpChoose("n", 2)
	for i := 0; i < n; i++ {
		taken++
		m := vpRecv(ch)
		vpAssert(m.Error == nil && m.Message.Offset == taken-1, "messages come in order")
	}
	c.Stop()
	o.over = true
	vpAssert(o.committed == taken, "a stopped consumer has committed what it delivered")
	time.Sleep(time.Second)
	vpReach("end")
}

// The group's coordinator is node 2 until its first, second or third offset request arrives; from then on it is node 3, and node 2 refuses
// what it is asked with code 14, 15 or 16, is down, or does not answer. A consumer with a group and automatic commits reads what is committed (an offset or nothing),
// delivers 3 messages and is stopped: it starts where it has to, and what it delivered is committed with node 3.
func VP_C11_moved() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	x := vpI64("base")
	vpAssume(vpAnd(x >= 0, x < 1<<40))
	log := []vpLogBatch{vpMkBatch(x, x+1, 0, x, x+1), vpMkBatch(x+2, x+3, 0, x+2, x+3), vpMkBatch(x+4, x+4, 0, x+4)}
	k := &vpCluster{nodes: []int32{1, 2, 3}, controller: 1, coord: 2, topics: []vpTopic{{"t", 0, []vpPart{{0, 1, 0}}}}}
	start := int64(vpChoose("committed", 2))
	o := &vpOffsets{log: log, committed: -1, max: 9, group: "g", gen: -1}
	if start > 0 {
		o.committed = x + start
	}
	when, how := vpChoose("when", 3), vpChoose("how", 5)
	seen := 0
	var nodes *vpNodes
	nodes = vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if (q.api == 8 || q.api == 9) && q.node == 2 {
			if seen == when {
				k.coord = 3
				switch how {
				case 3:
					nodes.mode[2] = 1
					return nil, true
				case 4:
					nodes.mode[2] = 2
					q.conn.readErr = vpTimeoutErr{}
					return nil, true
				}
			}
			seen++
		}
		if q.api == 8 || q.api == 9 {
			if k.coord != q.node {
				code := int16(14 + how)
				time.Sleep(5 * time.Second)
				if q.api == 9 {
					return vpOffsetFetchAnswer(q, -1, code), true
				}
				return vpCommitAnswer(q, vpParseCommit(q), code), true
			}
		}
		return o.handle(q)
	})
	cfg := vpConsumerCfg()
	cfg.GroupID = "g"
	cfg.AutoCommit = true
	cfg.AutoCommitIntervalMS = 1000
	cfg.OffsetsStorage = 1
	taken := x + start
	o.check = func(c vpCommit) {
		vpAssert(vpAnd(c.off >= o.committed, c.off <= taken), "a commit is not beyond what the user was given, and not backwards")
	}
	k.install()
	c, err := NewSimpleConsumer("t", 0, cfg)
	vpAssert(err == nil, "the consumer is created")
	ch := make(chan *FullMessage)
	consume := make(chan struct{})
	go func() {
		c.Consume(-2, ch)
		close(consume)
	}()
	for i := start; i < 3; i++ {
		taken = x + i + 1
		m := vpRecvFor(ch, 200*time.Second)
		vpAssert(m.Error == nil && m.Message.Offset == x+i, "messages come in order from the committed offset on")
		time.Sleep(1500 * time.Millisecond)
	}
	<-consume
	c.Stop()
	o.over = true
	vpAssert(o.committed == x+3, "a stopped consumer has committed what it delivered")
	vpReach("end")
}
