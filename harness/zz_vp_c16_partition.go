package healer

// A message with a key of 0..9 (thorough 0..17) bytes, the first, last or middle one of which has any value (the others are fixed),
// on a topic of 1..4 partitions listed in order or rotated, by two producers one after the other that see the partitions in
// different orders: it is stored in partition MurmurHash2(key, seed 0) mod n, both times.
func VP_C16_keyed() {
	vpMapOrder(1)
	vpDelays(0)
	n := 1 + vpChoose("n", 4)
	l := vpChoose("keylen", vpMax(10, 18))
	key := []byte("\x91\x02\xe3\x74\x05\xf6\x17\x88\x39\xca\x5b\xac\xfd\x0e\x00\xff\x80")[:l:l]
	if l > 0 {
		at := []int{0, l - 1, l / 2}[vpChoose("at", min(l, 3))]
		key[at] = vpU8("x")
	}
	val := vpBytes("val", 1)
	rot := vpPick([]int{0, n - 1}[vpChoose("rot", 2)])
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1}
	mk := func(rot int) {
		t := vpTopic{name: "t"}
		for i := 0; i < n; i++ {
			id := (i + rot) % n
			t.parts = append(t.parts, vpPart{id: int32(id), leader: int32(1 + id%2)})
		}
		k.topics = []vpTopic{t}
	}
	st := vpNewStore(k)
	want := vpMurmur2(key) % uint32(n)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 1
	for run := 1; run <= 2; run++ {
		mk(rot * (2 - run))
		p, err := NewProducer("t", cfg)
		vpAssert(err == nil, "a producer is created")
		if err != nil {
			return
		}
		vpAssert(p.AddMessage(key, val) == nil, "a message with a key is sent")
		p.Close()
		for i := 0; i < n; i++ {
			vpAssert(vpImplies(uint32(i) == want, len(st.recs[int32(i)]) == run), "a message is stored in the partition of its key")
			vpAssert(vpImplies(uint32(i) != want, len(st.recs[int32(i)]) == 0), "a message is stored in no other partition")
			for _, r := range st.recs[int32(i)] {
				vpAssert(vpAnd(vpNBEq(r.key, key), vpEqBytes(r.val, val)), "the message is stored as it was added")
			}
		}
	}
	vpReach("end")
}

// Messages without key on a topic of 1..3 partitions, each with or without a leader (any error code), whatever the random
// choice: they all go to partitions that have a leader; when none has one, the producer waits until one does.
func VP_C16_unkeyed() {
	vpMapOrder(1)
	vpDelays(0)
	n := 1 + vpChoose("n", 3)
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1}
	t := vpTopic{name: "t"}
	code := vpI16("code")
	vpAssume(code != 0)
	alive := 0
	for i := 0; i < n; i++ {
		p := vpPart{id: int32(i), leader: int32(1 + i%2)}
		if vpChoose("down", 2) == 1 {
			p.leader, p.err = -1, code
		} else {
			alive++
		}
		t.parts = append(t.parts, p)
	}
	k.topics = []vpTopic{t}
	st := vpNewStore(k)
	cfg := vpProducerCfg()
	cfg.MessageMaxCount = 1
	if alive == 0 {
		asked := 0
		h := k.handle
		k.handle = func(q *vpReq) ([]byte, bool) {
			if q.api == 3 {
				if asked++; asked == 4 {
					k.topics[0].parts[0] = vpPart{id: 0, leader: 2}
				}
			}
			return h(q)
		}
	}
	var p *Producer
	var err error
	if !vpNoPanic("creating a producer", func() { p, err = NewProducer("t", cfg) }) {
		return
	}
	vpAssert(err == nil, "a producer is created")
	vals := []vpSentRec{{nil, vpBytes("a", 1)}, {nil, vpBytes("b", 1)}}
	for _, v := range vals {
		vpAssert(p.AddMessage(nil, v.val) == nil, "a message without key is sent")
	}
	p.Close()
	found := 0
	for i := 0; i < n; i++ {
		r := st.recs[int32(i)]
		if len(r) > 0 {
			vpAssert(k.topics[0].parts[i].err == 0, "messages go to partitions that have a leader")
			vpAssert(vpSameRecs(r, vals), "the messages are stored as they were added")
			found += len(r)
		}
	}
	vpAssert(found == 2, "each message is stored once")
	vpReach("end")
}
