package healer

// vpStore is the broker side of the partitions of topic "t": what produce requests have written.
type vpStore struct {
	k      *vpCluster
	recs   map[int32][]vpSentRec
	event  func(q *vpReq, s vpSent) (code int16, write, answer bool)
	ok     bool
	noResp bool
}

func vpNewStore(k *vpCluster) *vpStore {
	st := &vpStore{k: k, recs: map[int32][]vpSentRec{}, ok: true}
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api != 0 {
			return nil, false
		}
		s, ok := vpParseProduce(q.raw)
		vpAssert(ok, "a produce request is well-formed")
		vpAssert(s.topic == "t", "a produce request names the topic")
		leader := int32(-1)
		for _, p := range k.topics[0].parts {
			if p.id == s.partition {
				leader = p.leader
			}
		}
		if leader != q.node {
			return vpProduceRespP(q.raw, s.partition, 6, -1), true
		}
		code, write, answer := int16(0), true, true
		if st.event != nil {
			code, write, answer = st.event(q, s)
		}
		base := int64(len(st.recs[s.partition]))
		if write {
			st.recs[s.partition] = append(st.recs[s.partition], s.recs...)
		}
		if !answer || s.acks == 0 {
			return nil, true
		}
		return vpProduceRespP(q.raw, s.partition, code, base), true
	}
	k.install()
	return st
}

func vpProducerCfg() ProducerConfig {
	c := DefaultProducerConfig()
	c.BootstrapServers = vpNodeAddr(1)
	return c
}

func vpSameRecs(got []vpSentRec, want []vpSentRec) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	for i := range got {
		ok = vpAnd(ok, vpAnd(vpNBEq(got[i].key, want[i].key), vpNBEq(got[i].val, want[i].val)))
	}
	return ok
}

// the messages of a harness: number i is in the first byte of the value, the second one is any byte
type vpMsgs struct {
	keys [][]byte
	vals [][]byte
	errs []error
}

func (m *vpMsgs) next(key []byte) (int, []byte) {
	i := len(m.vals)
	v := append([]byte{byte(i)}, vpBytes("val", 1)...)
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, v)
	m.errs = append(m.errs, ErrProducerClosed)
	return i, v
}

// every message whose AddMessage returned nil is stored exactly once, unchanged, the others not at all; messages of one
// partition are in the order they were added (when added by one goroutine, those with and without key apart)
func (m *vpMsgs) check(st *vpStore, ordered bool) {
	seen := make([]int, len(m.vals))
	for part, recs := range st.recs {
		last := [2]int{-1, -1}
		for _, r := range recs {
			i := int(r.val[0])
			seen[i]++
			vpAssert(vpAnd(vpNBEq(r.key, m.keys[i]), vpEqBytes(r.val, m.vals[i])), "a message is stored as it was added")
			if m.keys[i] != nil {
				n := uint32(len(st.k.topics[0].parts))
				vpAssert(uint32(part) == vpMurmur2(m.keys[i])%n, "a message with a key is stored in the partition of its key")
			}
			keyed := 0
			if m.keys[i] != nil {
				keyed = 1
			}
			if ordered {
				vpAssert(i > last[keyed], "the messages of a partition keep their order")
			}
			last[keyed] = i
		}
	}
	for i := range seen {
		if m.errs[i] == nil {
			vpAssert(seen[i] == 1, "an accepted message is stored exactly once")
		} else {
			vpAssert(seen[i] == 0, "a refused message is not stored")
		}
	}
}

// MurmurHash2 with seed 0, written from the published algorithm
func vpMurmur2(b []byte) uint32 {
	const m = 0x5bd1e995
	h := uint32(len(b))
	for len(b) >= 4 {
		k := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		k *= m
		k ^= k >> 24
		k *= m
		h = h*m ^ k
		b = b[4:]
	}
	switch len(b) {
	case 3:
		h ^= uint32(b[2]) << 16
		fallthrough
	case 2:
		h ^= uint32(b[1]) << 8
		fallthrough
	case 1:
		h ^= uint32(b[0])
		h *= m
	}
	h ^= h >> 13
	h *= m
	return h ^ h>>15
}
