package healer

import (
	"context"
	"errors"
)

// Three requests on one broker (find-coordinator through RequestAndGet, or a fetch read to its end through
// the stream decoder, in any combination), the first two meeting any of: an answer, an answer with any
// error code, no answer before the timeout and the answer arriving late, half of it and the rest late,
// the connection closed before, or inside the answer, a failing write, a reconnect that is refused once; read sizes
// unlimited, 1 and 5; with and without SASL. Every answer that is returned is the one to that very request;
// after a failure the next request is answered again; on every connection correlation ids are never used
// twice and nothing but the API versions is asked before authentication.
func VP_C09_sequence() {
	vpDelays(0)
	vpMapOrder(1)
	k := &vpCluster{nodes: []int32{1}, controller: 1, maxRead: [...]int{0, 1, 5}[vpChoose("read", 3)]}
	cfg := vpBrokerCfg()
	if vpChoose("sasl", 2) == 1 {
		cfg.Sasl.Mechanism, cfg.Sasl.User, cfg.Sasl.Password = "PLAIN", "u", "p"
	}
	step, ev, refuse := 0, 0, false
	var id int64 // what the step's answer is recognised by
	kept, conns := true, 1
	k.dialErr = func(int32) error {
		if refuse {
			refuse = false
			return errors.New("refused")
		}
		return nil
	}
	k.handle = func(q *vpReq) ([]byte, bool) {
		var full []byte
		var code int16
		if ev == 1 && (q.api == 10 || q.api == 1) {
			code = vpI16("code")
			vpAssume(code != 0)
		}
		switch q.api {
		case 10:
			w := &vpW{}
			w.u32(q.corr)
			w.i16(code)
			w.i32(int32(id))
			w.str(false, "h")
			w.i32(9092)
			full = vpFrame(w.b)
		case 1:
			f := vpParseFetch(q)
			vpAssert(f.ok && f.offset == id, "a fetch is sent as it was asked for")
			full = vpFetchAnswer(q, f, code, vpMkBatch(id, id, 0, id).bytes)
		default:
			return nil, false
		}
		switch ev {
		case 2:
			q.conn.late = full
			return nil, true
		case 3:
			q.conn.late = full[len(full)/2:]
			return full[:len(full)/2], true
		case 4:
			q.conn.late = full[2:]
			return full[:2], true
		case 5:
			return nil, true
		case 6:
			return full[:len(full)-1], true
		case 8:
			refuse = true
			return nil, true
		}
		return full, true
	}
	k.onConn = func(n int32, c *vpConn) {
		f := c.onWrite
		c.onWrite = func(c *vpConn, b []byte) error {
			if ev == 7 {
				return errors.New("broken pipe")
			}
			return f(c, b)
		}
	}
	k.install()
	b, err := NewBroker(vpNodeAddr(1), 1, cfg)
	vpAssert(err == nil, "the broker is reached")
	for step = 1; step <= 3; step++ {
		ev = 0
		id = vpI64("id")
		vpAssume(vpAnd(id >= 0, id < 1<<31))
		if step < 3 {
			ev = vpChoose("event", 9)
		}
		refused := refuse
		fetch := vpChoose("op", 2) == 1
		good := false
		if fetch {
			r := NewFetchRequest("c", 100, 1)
			r.addPartition("t", 0, id, 1000, -1)
			reader, n, err := b.requestFetchStreamingly(r)
			if err == nil {
				ch := make(chan *FullMessage, 10)
				d := &fetchResponseStreamDecoder{ctx: context.Background(), buffers: reader, messages: ch, totalLength: int(n), version: b.getHighestAvailableAPIVersion(1)}
				err = d.streamDecode(context.Background(), id)
				close(ch)
				for m := range ch {
					if m.Error != nil {
						if _, ok := m.Error.(KafkaError); !ok {
							b.Close() // what the consumer does
						}
						err = m.Error
						continue
					}
					vpAssert(m.Message.Offset == id, "a fetch is given its own answer")
					good = true
				}
			}
			vpAssert(good == (err == nil), "a fetch that fails says so")
		} else {
			r, err := b.findCoordinator("c", "g")
			good = err == nil
			if good {
				vpAssert(r.Coordinator.NodeID == int32(id), "a request is given its own answer")
			}
		}
		vpAssert(good == (ev == 0 && !refused), "requests succeed exactly when they are answered")
		vpAssert(!kept || len(k.conns) == conns, "an answered request does not cost the connection")
		kept = ev < 2 && !refused
		conns = len(k.conns)
	}
	for _, c := range k.conns {
		var last uint32
		auth := 0
		for i, q := range k.log {
			if q.conn != c {
				continue
			}
			_ = i
			vpAssert(q.corr > last, "correlation ids are not used twice on a connection")
			last = q.corr
			if cfg.Sasl.Mechanism == "" {
				continue
			}
			if q.api == 36 {
				auth++
			}
			vpAssert(q.api == 18 || q.api == 17 || q.api == 36 || auth > 0, "nothing is asked before authentication")
		}
	}
	vpReach("end")
}
