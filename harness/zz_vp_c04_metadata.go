package healer

// Metadata v1, v4, v7: 0..2 brokers (host 0..1 bytes, rack null/0..1), cluster id null/0..2,
// 0..2 topics (name 0..1 bytes, any order) with 0..2 partitions (any order) and 0..2
// replicas/isr/offline replicas; the result is the same set sorted by topic and partition.
func VP_C04_metadata() {
	v := []uint16{7, 4, 1}[vpChoose("ver", 3)]
	corr := vpU32("corr")
	w := &vpW{}
	w.u32(corr)
	var throttle int32
	if v >= 3 {
		throttle = vpI32("throttle")
		w.i32(throttle)
	}
	nb := vpN("brokers", 2)
	nt := 0
	if nb < 2 {
		nt = vpN("topics", 2)
	}
	w.arr(false, nb)
	bs := make([]BrokerInfo, nb)
	racks := make([]*string, nb)
	for i := range bs {
		bs[i] = BrokerInfo{NodeID: vpID("node"), Host: vpS("host", 1), Port: vpI32("port")}
		racks[i] = vpNS("rack", 1)
		w.i32(bs[i].NodeID)
		w.str(false, bs[i].Host)
		w.i32(bs[i].Port)
		w.nstr(false, racks[i])
	}
	var cluster *string
	if v >= 2 {
		cluster = vpNS("cluster", 2)
		w.nstr(false, cluster)
	}
	controller := vpI32("controller")
	w.i32(controller)
	w.arr(false, nt)
	ts := make([]TopicMetadata, nt)
	for i := range ts {
		t := &ts[i]
		t.TopicErrorCode, t.TopicName, t.IsInternal = vpI16("terr"), vpS1("topic", 1), vpBool("internal")
		w.i16(t.TopicErrorCode)
		w.str(false, t.TopicName)
		w.bool(t.IsInternal)
		np := 0
		if i == 0 || vpTier() == 1 {
			np = vpN("parts", 2)
		} else {
			np = vpN("parts", 1)
		}
		w.arr(false, np)
		for j := 0; j < np; j++ {
			p := &PartitionMetadataInfo{PartitionErrorCode: vpI16("perr"), PartitionID: vpID("pid"), Leader: vpI32("leader")}
			w.i16(p.PartitionErrorCode)
			w.i32(p.PartitionID)
			w.i32(p.Leader)
			if v >= 7 {
				p.LeaderEpoch = vpI32("epoch")
				w.i32(p.LeaderEpoch)
			}
			if i == 0 && j == 0 {
				p.Replicas, p.Isr = vpI32s("rep", 2), vpI32s("isr", 1)
			} else {
				p.Replicas, p.Isr = []int32{vpI32("rep")}, []int32{vpI32("isr")}
			}
			w.i32s(false, p.Replicas)
			w.i32s(false, p.Isr)
			if v >= 5 {
				if i == 0 && j == 0 {
					p.OfflineReplicas = vpI32s("off", 1)
				}
				w.i32s(false, p.OfflineReplicas)
			}
			t.PartitionMetadatas = append(t.PartitionMetadatas, p)
		}
	}
	samePart := func(a, b *PartitionMetadataInfo) bool {
		ok := vpAnd(a.PartitionErrorCode == b.PartitionErrorCode, vpAnd(a.PartitionID == b.PartitionID, vpAnd(a.Leader == b.Leader, a.LeaderEpoch == b.LeaderEpoch)))
		return vpAnd(ok, vpAnd(vpI32sEq(a.Replicas, b.Replicas), vpAnd(vpI32sEq(a.Isr, b.Isr), vpI32sEq(a.OfflineReplicas, b.OfflineReplicas))))
	}
	sameTopic := func(a, b *TopicMetadata) bool {
		if len(a.PartitionMetadatas) != len(b.PartitionMetadatas) {
			return false
		}
		ok := vpAnd(a.TopicErrorCode == b.TopicErrorCode, vpAnd(vpEqBytes([]byte(a.TopicName), []byte(b.TopicName)), a.IsInternal == b.IsInternal))
		x, y := a.PartitionMetadatas, b.PartitionMetadatas
		switch len(x) {
		case 1:
			ok = vpAnd(ok, samePart(x[0], y[0]))
		case 2:
			ok = vpAnd(ok, vpOr(vpAnd(samePart(x[0], y[0]), samePart(x[1], y[1])), vpAnd(samePart(x[0], y[1]), samePart(x[1], y[0]))))
			ok = vpAnd(ok, y[0].PartitionID <= y[1].PartitionID)
		}
		return ok
	}
	vpDecode("Metadata", func() {
		r, err := NewMetadataResponse(vpFrame(w.b), v)
		vpDecOK("Metadata", err)
		vpAssert(r.CorrelationID == corr, "Metadata response correlation id")
		vpAssert(r.ThrottleTimeMs == throttle, "Metadata response throttle time")
		vpAssert(r.ControllerID == controller, "Metadata response controller")
		vpAssert(vpStrEqN(r.ClusterID, cluster), "Metadata response cluster id")
		vpAssert(len(r.Brokers) == nb, "Metadata response broker count")
		for i := range bs {
			g := r.Brokers[i]
			vpAssert(g.NodeID == bs[i].NodeID && g.Host == bs[i].Host && g.Port == bs[i].Port, "Metadata response broker")
			vpAssert(vpStrEqN(g.Rack, racks[i]), "Metadata response rack")
		}
		vpAssert(len(r.TopicMetadatas) == nt, "Metadata response topic count")
		g := r.TopicMetadatas
		switch nt {
		case 1:
			vpAssert(sameTopic(&ts[0], &g[0]), "Metadata response topic")
		case 2:
			vpAssert(vpOr(vpAnd(sameTopic(&ts[0], &g[0]), sameTopic(&ts[1], &g[1])), vpAnd(sameTopic(&ts[0], &g[1]), sameTopic(&ts[1], &g[0]))), "Metadata response topics")
			vpAssert(g[0].TopicName <= g[1].TopicName, "Metadata topics are sorted")
		}
	})
	vpReach("end")
}
