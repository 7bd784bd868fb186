package healer

import (
	"context"
	"time"
)

// vpWaits asserts how long healer waits for the answer to a request, by API key
func vpWaits(k *vpCluster, check func(q *vpReq, d time.Duration)) {
	k.onConn = func(n int32, c *vpConn) {
		c.onWait = func(d time.Duration) {
			for i := len(k.log) - 1; i >= 0; i-- {
				if k.log[i].conn == c {
					check(k.log[i], d)
					return
				}
			}
		}
	}
}

func vpMs(n int) time.Duration { return time.Duration(n) * time.Millisecond }

// vpConsumerWaits is what a consumer's options promise
func vpConsumerWaits(q *vpReq, d time.Duration, timeout, session, wait int) {
	switch q.api {
	case 1:
		vpAssert(d == vpMs(timeout+wait), "a fetch is waited for as long as the broker may hold it back and net.timeout.ms")
	case 11:
		vpAssert(d > vpMs(session), "a join is waited for longer than the session timeout")
	case 8:
		vpAssert(d <= vpMs(session), "a commit is not waited for longer than the session timeout")
	default:
		vpAssert(d == vpMs(timeout), "a request is waited for as long as net.timeout.ms says")
	}
}

// Options of a consumer given as a map (numbers, or as text) or as a struct, with net.timeout.ms, fetch.max.wait.ms,
// net.connect.timeout.ms, net.keepalive.ms, fetch.min.bytes, fetch.max.bytes of any positive value, session.timeout.ms 1000, 9000 or 61000, any one-byte client and group
// id: a SimpleConsumer or GroupConsumer waits, dials and asks accordingly. A per-API timeout list in the struct, of any length of 0, 5 or 70,
// does no harm and is not written to.
func VP_C18_consumer() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	pos := func(name string) int {
		n := vpInt(name, 2, 1000000)
		vpAssume(vpAnd(n >= 2, n <= 1000000))
		return n
	}
	timeout, wait := pos("timeout"), pos("wait")
	session := [...]int{1000, 9000, 61000}[vpChoose("session", 3)]
	connect, keep := pos("connect"), pos("keepalive")
	minb, maxb := pos("min"), pos("max")
	group := vpChoose("group", 2) == 1
	var cfg interface{}
	var user []int
	client, gid := "c", "g"
	switch vpChoose("form", 3) {
	case 0:
		client = vpStr("client", 1)
		cfg = map[string]interface{}{
			"bootstrap.servers": vpNodeAddr(1), "client.id": client, "group.id": gid, "session.timeout.ms": session,
			"fetch.max.wait.ms": wait, "fetch.min.bytes": minb, "fetch.max.bytes": maxb, "from.beginning": true,
			"net": map[string]interface{}{"timeout.ms": timeout, "connect.timeout.ms": connect, "keepalive.ms": keep},
		}
	case 1:
		timeout, session, wait, connect, keep, minb, maxb = 12345, 9000, 77, 2345, 61000, 3, 1<<20
		cfg = map[string]interface{}{
			"bootstrap.servers": vpNodeAddr(1), "client.id": "c", "group.id": "g", "session.timeout.ms": "9000",
			"fetch.max.wait.ms": "77", "fetch.min.bytes": "3", "fetch.max.bytes": "1048576", "from.beginning": "true",
			"net": map[string]interface{}{"timeout.ms": "12345", "connect.timeout.ms": "2345", "keepalive.ms": "61000"},
		}
	case 2:
		client = vpStr("client", 1)
		c := DefaultConsumerConfig()
		c.BootstrapServers, c.ClientID, c.GroupID, c.SessionTimeoutMS = vpNodeAddr(1), client, gid, int32(session)
		c.FetchMaxWaitMS, c.FetchMinBytes, c.FetchMaxBytes, c.FromBeginning = int32(wait), int32(minb), int32(maxb), true
		c.Net.TimeoutMS, c.Net.ConnectTimeoutMS, c.Net.KeepAliveMS = timeout, connect, keep
		if n := vpChoose("list", 4); n < 3 {
			user = make([]int, [...]int{0, 5, 70}[n])
			for i := range user {
				user[i] = 1
			}
			c.Net.TimeoutMSForEachAPI = user
		}
		cfg = c
	}
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	g := vpNewGroup(k, 10, 1)
	g.session = vpMs(session)
	g.anyRate = true
	g.give = []int32{0}
	g.assigned[0] = !group
	inner := k.handle
	k.handle = func(q *vpReq) ([]byte, bool) {
		vpAssert(vpAnd(vpDialTimeout == vpMs(connect), vpDialKeepAlive == vpMs(keep)), "connections are made as net.connect.timeout.ms and net.keepalive.ms say")
		switch q.api {
		case 1:
			f := vpParseFetch(q)
			vpAssert(vpAnd(int(f.wait) == wait, vpAnd(int(f.minBytes) == minb, int(f.maxBytes) == maxb)), "fetches ask as the fetch options say")
		case 18, 3:
			return inner(q)
		}
		vpAssert(q.client != nil && *q.client == client, "requests name the client id")
		return inner(q)
	}
	vpWaits(k, func(q *vpReq, d time.Duration) { vpConsumerWaits(q, d, timeout, session, wait) })
	k.install()
	ch := make(chan *FullMessage)
	if group {
		c, err := NewGroupConsumer("t", cfg)
		vpAssert(err == nil, "the consumer is created")
		_, err = c.Consume(ch)
		vpAssert(err == nil, "consuming starts")
		vpRecv(ch)
		g.taken[0]++
		c.Close()
	} else {
		g.free = true
		c, err := NewSimpleConsumer("t", 0, cfg)
		vpAssert(err == nil, "the consumer is created")
		_, err = c.Consume(-2, ch)
		vpAssert(err == nil, "consuming starts")
		vpRecv(ch)
		g.taken[0]++
		c.Stop()
	}
	for _, x := range user {
		vpAssert(x == 1, "the user's configuration is not written to")
	}
	vpReach("end")
}

// Three consumers are created one after the other from maps, structs or a mixture, with any net.timeout.ms, fetch.max.wait.ms and session.timeout.ms of their
// own (or none, then the default); each keeps to its own options whatever the others were given.
func VP_C18_isolation() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1, 2, 3}, controller: 1, coord: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	k.handle = func(q *vpReq) ([]byte, bool) {
		switch q.api {
		case 1:
			time.Sleep(500 * time.Millisecond)
			return vpFetchAnswer(q, vpParseFetch(q), 0, nil), true
		case 2:
			return vpOffsetsAnswer(q, 0, 10, 12), true
		}
		return nil, false
	}
	want := map[string][3]int{}
	vpWaits(k, func(q *vpReq, d time.Duration) {
		if q.api == 1 || q.api == 2 {
			w := want[*q.client]
			vpConsumerWaits(q, d, w[0], w[1], w[2])
		}
	})
	k.install()
	base := DefaultConsumerConfig()
	base.AutoCommit = false
	var cs []*SimpleConsumer
	for i := 0; i < 3; i++ {
		name := "c" + string(rune('0'+i))
		w := [3]int{30000, 30000, 500}
		var cfg interface{}
		switch vpChoose("form", 3) {
		case 0: // a map without options
			cfg = map[string]interface{}{"bootstrap.servers": vpNodeAddr(1), "client.id": name}
		case 1:
			w[0] = vpInt("timeout", 1, 1000000)
			w[2] = vpInt("wait", 1, 1000000)
			vpAssume(vpAnd(vpAnd(w[0] >= 1, w[0] <= 1000000), vpAnd(w[2] >= 1, w[2] <= 1000000)))
			cfg = map[string]interface{}{"bootstrap.servers": vpNodeAddr(1), "client.id": name, "fetch.max.wait.ms": w[2], "net": map[string]interface{}{"timeout.ms": w[0]}}
		case 2: // copies of one struct
			w[0] = vpInt("timeout", 1, 1000000)
			vpAssume(vpAnd(w[0] >= 1, w[0] <= 1000000))
			c := base
			c.BootstrapServers, c.ClientID, c.Net.TimeoutMS = vpNodeAddr(1), name, w[0]
			cfg = c
		}
		want[name] = w
		c, err := NewSimpleConsumer("t", 0, cfg)
		vpAssert(err == nil, "the consumer is created")
		cs = append(cs, c)
	}
	for _, c := range cs {
		_, err := c.Consume(-2, nil)
		vpAssert(err == nil, "consuming starts")
	}
	time.Sleep(2 * time.Second)
	for _, c := range cs {
		c.Stop()
	}
	d := DefaultConsumerConfig()
	vpAssert(d.Net.TimeoutMS == 30000 && d.FetchMaxWaitMS == 500, "the defaults do not change")
	vpReach("end")
}

// Three producers are created one after the other from maps, structs or a mixture, with any acks and request.timeout.ms, compression and
// message.max.count of their own (or none, then the default); each keeps to its own options whatever the others were given.
func VP_C18_producers() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	type opts struct {
		acks    int16
		timeout int32
		comp    int
		max     int
	}
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	st := vpNewStore(k)
	want := map[string]opts{}
	sent := map[string]int{}
	st.event = func(q *vpReq, s vpSent) (int16, bool, bool) {
		w := want[*q.client]
		sent[*q.client] += len(s.recs)
		vpAssert(vpAnd(s.acks == w.acks, s.timeout == w.timeout), "a producer asks for acks and request.timeout.ms as configured for it")
		vpAssert(int(s.attr&7) == w.comp, "a producer compresses as configured for it")
		return 0, true, true
	}
	k.install()
	var ps []*Producer
	def := DefaultProducerConfig()
	dw := opts{def.Acks, def.RequestTimeoutMS, 0, def.MessageMaxCount}
	for i := 0; i < 3; i++ {
		name := "p" + string(rune('0'+i))
		w := dw
		var cfg interface{}
		form := vpChoose("form", 3)
		if form > 0 {
			w = opts{acks: vpI16("acks"), timeout: vpI32("request"), comp: 1, max: 1}
			vpAssume(w.acks != 0)
		}
		switch form {
		case 0: // a map without options
			cfg = map[string]interface{}{"bootstrap.servers": vpNodeAddr(1), "client.id": name}
		case 1:
			cfg = map[string]interface{}{"bootstrap.servers": vpNodeAddr(1), "client.id": name, "acks": w.acks, "request.timeout.ms": w.timeout, "compress.type": "gzip", "message.max.count": 1}
		case 2:
			c := def
			c.BootstrapServers, c.ClientID, c.Acks, c.RequestTimeoutMS, c.CompressionType, c.MessageMaxCount = vpNodeAddr(1), name, w.acks, w.timeout, "gzip", 1
			cfg = c
		}
		want[name] = w
		p, err := NewProducer("t", cfg)
		vpAssert(err == nil, "the producer is created")
		ps = append(ps, p)
	}
	for i, p := range ps {
		name := "p" + string(rune('0'+i))
		vpAssert(p.AddMessage(nil, []byte{1}) == nil, "a message is added")
		vpAssert((sent[name] == 1) == (want[name].max == 1), "a producer sends when the message.max.count configured for it is reached")
		p.Close()
		vpAssert(sent[name] == 1, "a producer sends what it was given")
	}
	d := DefaultProducerConfig()
	vpAssert(d.Acks == def.Acks && d.RequestTimeoutMS == def.RequestTimeoutMS && d.CompressionType == "none", "the defaults do not change")
	vpReach("end")
}

// Options of a producer given as a map or as a struct: acks, net.timeout.ms, request.timeout.ms of any value, message.max.count 1..3,
// flush.interval.ms 50 or 1000, every compression type, any one-byte client id, a per-API timeout list of 0, 1 or 20 of any values: a SimpleProducer or Producer
// sends, batches, flushes and waits accordingly.
func VP_C18_producer() {
	vpDelays(0)
	vpMapOrder(1)
	acks := vpI16("acks")
	vpAssume(acks != 0)
	timeout := vpInt("timeout", 1, 1000000)
	vpAssume(vpAnd(timeout >= 1, timeout <= 1000000))
	reqTimeout := vpI32("request")
	max := 1 + vpChoose("max", 3)
	flush := [...]int{50, 1000}[vpChoose("flush", 2)]
	comp := vpChoose("compress", 4)
	cname := [...]string{"none", "gzip", "snappy", "lz4"}[comp]
	client := vpStr("client", 1)
	list := make([]int, [...]int{0, 1, 20}[vpChoose("list", 3)])
	for i := range list {
		if i == 0 || i == 3 {
			list[i] = vpInt("api", -5, 1000000)
			vpAssume(vpAnd(list[i] >= -5, list[i] <= 1000000))
		}
	}
	var cfg interface{}
	if vpChoose("form", 2) == 0 {
		cfg = map[string]interface{}{
			"bootstrap.servers": vpNodeAddr(1), "client.id": client, "acks": acks, "compress.type": cname, "message.max.count": max,
			"flush.interval.ms": flush, "request.timeout.ms": reqTimeout,
			"net": map[string]interface{}{"timeout.ms": timeout, "timeout.ms.for.eachapi": list},
		}
	} else {
		c := DefaultProducerConfig()
		c.BootstrapServers, c.ClientID, c.Acks, c.CompressionType, c.MessageMaxCount = vpNodeAddr(1), client, acks, cname, max
		c.FlushIntervalMS, c.RequestTimeoutMS, c.Net.TimeoutMS, c.Net.TimeoutMSForEachAPI = flush, reqTimeout, timeout, list
		cfg = c
	}
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	st := vpNewStore(k)
	st.event = func(q *vpReq, s vpSent) (int16, bool, bool) {
		vpAssert(vpAnd(s.acks == acks, s.timeout == reqTimeout), "produce requests ask for acks and request.timeout.ms as configured")
		vpAssert(int(s.attr&7) == comp, "batches are compressed as compress.type says")
		vpAssert(q.client != nil && *q.client == client, "requests name the client id")
		vpAssert(len(s.recs) <= max, "a batch is not larger than message.max.count")
		return 0, true, true
	}
	vpWaits(k, func(q *vpReq, d time.Duration) {
		want := timeout
		if int(q.api) < len(list) && list[q.api] > 0 {
			want = list[q.api]
		}
		vpAssert(d == vpMs(want), "a request is waited for as long as net.timeout.ms or the API's own timeout says")
	})
	k.install()
	n := 0
	feed := func(f func(k, v []byte) error) {
		for i := 0; i < max; i++ {
			vpAssert(len(st.recs[0]) == n, "messages are sent in batches of message.max.count")
			vpAssert(f(nil, []byte{1}) == nil, "a message is added")
		}
		n += max
		vpAssert(len(st.recs[0]) == n, "a full batch is sent")
		if max > 1 {
			t0 := time.Now()
			vpAssert(f(nil, []byte{2}) == nil, "a message is added")
			n++
			for len(st.recs[0]) < n && time.Since(t0) < 10*time.Second {
				time.Sleep(10 * time.Millisecond)
			}
			vpAssert(time.Since(t0) <= vpMs(flush+20), "a message is sent when flush.interval.ms has passed")
		}
	}
	if vpChoose("single", 2) == 1 {
		p, err := NewSimpleProducer(context.Background(), "t", 0, cfg)
		vpAssert(err == nil, "the producer is created")
		feed(p.AddMessage)
		p.Close()
	} else {
		p, err := NewProducer("t", cfg)
		vpAssert(err == nil, "the producer is created")
		feed(p.AddMessage)
		p.Close()
	}
	vpReach("end")
}

// A configuration with any value of one of its options (zero and negative ones too; -1, 0, 1, 500 or 100000 ms of those that are timers), or without bootstrap servers, group id or with an unknown compression
// type, or no configuration at all: the constructor refuses it, or the client works (Producer, SimpleProducer, SimpleConsumer,
// GroupConsumer) - it never panics, whatever the option.
func VP_C18_odd() {
	vpDelays(0)
	vpSelects(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, coord: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	v := vpInt("value", -100000, 100000)
	vpAssume(vpAnd(v >= -100000, v <= 100000))
	what := vpChoose("option", 16)
	dur := 5 * time.Second
	ms := func() int {
		x := [...]int{-1, 0, 500, 100000, 1}[vpChoose("ms", 5)] // of a timer
		if x == 1 {
			dur = 20 * time.Millisecond
		}
		return x
	}
	vpNoPanic("a client with an odd configuration", func() {
		if vpChoose("client", 2) == 0 {
			c := vpGroupCfg()
			refuse := false
			switch what {
			case 0:
				c.BootstrapServers = ""
				refuse = true
			case 1:
				c.OffsetsStorage = v
				vpAssume(vpOr(v == 0, vpOr(v == 1, v == 2)))
			case 2:
				c.SessionTimeoutMS = int32(ms())
				if c.SessionTimeoutMS == 1 {
					c.SessionTimeoutMS = 9
				}
			case 3:
				c.MetadataMaxAgeMS = ms()
			case 4:
				c.AutoCommitIntervalMS = ms()
			case 5:
				c.RetryBackOffMS = ms()
			case 6:
				c.FetchMaxWaitMS = int32(v)
			case 7:
				c.FetchMinBytes = int32(v)
			case 8:
				c.Net.TimeoutMS = v
			case 9:
				c.Net.ConnectTimeoutMS = v
			case 10:
				c.MetadataRefreshIntervalMS = v
			case 11:
				c = ConsumerConfig{BootstrapServers: vpNodeAddr(1), GroupID: "g"}
			case 12:
				c.GroupID = ""
			case 13:
				c.AutoCommit = false
				c.AutoCommitIntervalMS = 0
			default:
				vpAssume(false)
			}
			g := vpNewGroup(k, 10, 1)
			g.taken[0] = 100
			g.session = vpMs(int(c.SessionTimeoutMS))
			g.anyRate = true
			g.give = []int32{0}
			k.install()
			ch := make(chan *FullMessage)
			if vpChoose("group", 2) == 1 {
				gc, err := NewGroupConsumer("t", c)
				if refuse || what == 12 {
					vpAssert(err != nil, "a consumer without bootstrap servers or group is refused")
				}
				if what == 1 && v == 2 {
					vpAssert(err != nil, "an unknown offsets storage is refused")
				}
				if err != nil {
					return
				}
				_, err = gc.Consume(ch)
				vpAssert(err == nil, "consuming starts")
				vpTakeFor(ch, dur)
				gc.Close()
			} else {
				g.free = true
				g.assigned[0] = true
				sc, err := NewSimpleConsumer("t", 0, c)
				if refuse {
					vpAssert(err != nil, "a consumer without bootstrap servers is refused")
				}
				if err != nil {
					return
				}
				_, err = sc.Consume(-2, ch)
				vpAssert(err == nil, "consuming starts")
				vpTakeFor(ch, dur)
				sc.Stop()
			}
			return
		}
		vpNewStore(k)
		c := vpProducerCfg()
		refuse := false
		switch what {
		case 0:
			c.BootstrapServers = ""
			refuse = true
		case 1:
			c.CompressionType = vpStr("type", 1)
			refuse = true
		case 2:
			c.MessageMaxCount = v
			vpAssume(v < 3)
			refuse = v <= 0
		case 3:
			c.FlushIntervalMS = ms()
			refuse = c.FlushIntervalMS <= 0
		case 4:
			c.MetadataMaxAgeMS = ms()
		case 5:
			c.RetryBackOffMS = ms()
		case 6:
			c.Net.TimeoutMS = v
		case 7:
			c.Net.ConnectTimeoutMS = v
		case 8:
			c.MetadataRefreshIntervalMS = v
		case 9:
			c.HealerMagicByte = v
		case 10:
			c.BatchSize = v
		case 11:
			c.ConnectionsMaxIdleMS = v
		case 12:
			c.FetchTopicMetaDataRetrys = v
		case 13:
			c = ProducerConfig{BootstrapServers: vpNodeAddr(1), CompressionType: "none", MessageMaxCount: 10, FlushIntervalMS: 100}
		case 14:
			c.Acks = int16(v)
		case 15:
			c.Retries = v
		}
		if vpChoose("single", 2) == 1 {
			p, err := NewSimpleProducer(context.Background(), "t", 0, c)
			vpAssert(!refuse || err != nil, "a bad producer configuration is refused")
			if err == nil {
				p.AddMessage(nil, []byte{1})
				time.Sleep(dur / 5)
				p.Close()
			}
		} else {
			p, err := NewProducer("t", c)
			vpAssert(!refuse || err != nil, "a bad producer configuration is refused")
			if err == nil {
				p.AddMessage(nil, []byte{1})
				time.Sleep(dur / 5)
				p.Close()
			}
		}
	})
	vpReach("end")
}

// vpTakeFor takes what comes for a while
func vpTakeFor(ch <-chan *FullMessage, d time.Duration) {
	t := time.After(d)
	for {
		select {
		case <-ch:
		case <-t:
			return
		}
	}
}

// No configuration, one of a wrong type, or a map with a value that can not be understood: an error from every constructor.
func VP_C18_refused() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	k.install()
	var cfg interface{}
	switch vpChoose("cfg", 5) {
	case 1:
		cfg = map[string]string{"bootstrap.servers": vpNodeAddr(1), "group.id": "g"}
	case 2:
		cfg = map[string]interface{}{"bootstrap.servers": vpNodeAddr(1), "group.id": "g", "metadata.max.age.ms": "soon"}
	case 3:
		cfg = map[string]interface{}{"bootstrap.servers": vpNodeAddr(1), "group.id": "g", "net": 5}
	case 4:
		cfg = 7
	}
	vpNoPanic("creating a client", func() {
		var err error
		switch vpChoose("client", 5) {
		case 0:
			_, err = NewProducer("t", cfg)
		case 1:
			_, err = NewSimpleProducer(context.Background(), "t", 0, cfg)
		case 2:
			_, err = NewSimpleConsumer("t", 0, cfg)
		case 3:
			_, err = NewConsumer(cfg, "t")
		case 4:
			_, err = NewGroupConsumer("t", cfg)
		}
		vpAssert(err != nil, "a configuration that can not be understood is refused")
	})
	vpAssert(len(k.dials) == 0 || cfg == nil, "nothing is dialed")
	vpReach("end")
}
