package healer

import "net"

// vpYieldConn lets other goroutines run inside every read and write.
type vpYieldConn struct{ *vpConn }

func (c vpYieldConn) Read(b []byte) (int, error) {
	vpYield()
	return c.vpConn.Read(b)
}
func (c vpYieldConn) Write(b []byte) (int, error) {
	vpYield()
	n, err := c.vpConn.Write(b)
	vpYield()
	return n, err
}
func (c vpYieldConn) Close() error {
	vpYield()
	return c.vpConn.Close()
}

// find-coordinator answers name the group that was asked for in the host, and its own node id
func vpCoordEcho(k *vpCluster, ids map[string]int32) func(q *vpReq) ([]byte, bool) {
	return func(q *vpReq) ([]byte, bool) {
		if q.api != 10 {
			return nil, false
		}
		r := &vpRd{b: q.raw, o: q.rd.o}
		g := r.str()
		w := &vpW{}
		w.u32(q.corr)
		w.i16(0)
		w.i32(ids[g])
		w.str(false, g)
		w.i32(9092)
		return vpFrame(w.b), true
	}
}

func vpYielding(k *vpCluster) {
	k.install()
	hook := vpDialHook
	vpDialHook = func(network, addr string) (net.Conn, error) {
		c, err := hook(network, addr)
		if err != nil {
			return nil, err
		}
		return vpYieldConn{c.(*vpConn)}, nil
	}
}

// Two goroutines use one broker (two requests one after the other each, the connection open or to be opened); every
// schedule with at most two preemptions, at locks, reads and writes, or one (thorough two) that may also be at any use of the broker's fields. Each request gets its own answer.
func VP_C12_two_users() {
	vpRacy(2)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1}
	ids := map[string]int32{"a": vpI32("ida"), "b": vpI32("idb")}
	k.handle = vpCoordEcho(k, ids)
	vpYielding(k)
	b, err := NewBroker(vpNodeAddr(1), 1, vpBrokerCfg())
	vpAssert(err == nil, "the broker is reached")
	if vpChoose("open", 2) == 0 {
		b.Close()
	}
	done := make(chan bool)
	for _, g := range []string{"a", "b"} {
		g := g
		go func() {
			for i := 0; i < 2; i++ {
				r, err := b.findCoordinator("c", g)
				vpAssert(err == nil, "requests of concurrent users are answered")
				vpAssert(r.Coordinator.Host == g, "a concurrent request is given its own answer")
				vpAssert(r.Coordinator.NodeID == ids[g], "a concurrent request is given its own answer")
			}
			done <- true
		}()
	}
	<-done
	<-done
	vpReach("end")
}

// One goroutine sends two requests (or a fetch) while another closes the broker, at any point: every
// schedule with at most two preemptions, or one (thorough two) that may also be at any use of the broker's fields. Nothing panics or hangs, a request fails or gets its own answer,
// and a later request is answered.
func VP_C12_close() {
	vpRacy(2)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1}
	ids := map[string]int32{"a": vpI32("ida"), "b": vpI32("idb")}
	h := vpCoordEcho(k, ids)
	k.handle = func(q *vpReq) ([]byte, bool) {
		if q.api == 1 {
			return vpFetchAnswer(q, vpParseFetch(q), 0, vpMkBatch(5, 5, 0, 5).bytes), true
		}
		return h(q)
	}
	vpYielding(k)
	b, err := NewBroker(vpNodeAddr(1), 1, vpBrokerCfg())
	vpAssert(err == nil, "the broker is reached")
	if vpChoose("open", 2) == 0 {
		b.Close()
	}
	fetch := vpChoose("fetch", 2) == 1
	done := make(chan bool)
	go func() {
		if fetch {
			vpNoPanic("a fetch on a broker that is being closed", func() {
				r := NewFetchRequest("c", 100, 1)
				r.addPartition("t", 0, 5, 1000, -1)
				b.requestFetchStreamingly(r)
			})
		} else {
			for _, g := range []string{"a", "b"} {
				vpNoPanic("a request on a broker that is being closed", func() {
					r, err := b.findCoordinator("c", g)
					if err == nil {
						vpAssert(vpAnd(r.Coordinator.Host == g, r.Coordinator.NodeID == ids[g]), "a request is given its own answer")
					}
				})
			}
		}
		done <- true
	}()
	go func() {
		b.Close()
		done <- true
	}()
	<-done
	<-done
	b.Close()
	r, err := b.findCoordinator("c", "b")
	vpAssert(err == nil && r.Coordinator.Host == "b", "a closed broker is opened again")
	vpReach("end")
}

// n preemptions at locks, channels and connections; or one less (thorough: as many) that may also be at any use of a field of healer's shared
// structs
func vpRacy(n int) {
	vpPreempt(n)
	if vpTier() > 0 {
		vpMemory(1)
	} else if vpChoose("memory", 2) == 1 {
		vpPreempt(n - 1)
		vpMemory(1)
	}
}
