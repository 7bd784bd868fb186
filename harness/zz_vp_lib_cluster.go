package healer

import (
	"errors"
	"net"
)

// A cluster of brokers answering healer's requests over vpConns, written from the protocol schema.

type vpReq struct {
	node   int32
	conn   *vpConn
	api    uint16
	ver    uint16
	corr   uint32
	client *string
	rd     *vpRd // the request's body
	raw    []byte
}

type vpPart struct {
	id, leader int32
	err        int16
}
type vpTopic struct {
	name  string
	err   int16
	parts []vpPart
}

type vpCluster struct {
	nodes      []int32
	controller int32
	topics     []vpTopic
	ranges     map[uint16][2]uint16                  // API versions offered (default 0..15)
	handle     func(q *vpReq) (resp []byte, ok bool) // ok: handled; resp nil: no answer
	apis       []uint16                              // APIs to announce (default: those healer negotiates)
	log        []*vpReq
	conns      []*vpConn
	dials      []int32
	dialErr    func(node int32) error
	onConn     func(node int32, c *vpConn)
	maxRead    int
	coord      int32
}

func vpNodeAddr(id int32) string { return "b" + string(rune('0'+id)) + ":9092" }

func (k *vpCluster) install() {
	vpDialHook = func(network, addr string) (net.Conn, error) {
		for _, id := range k.nodes {
			if vpNodeAddr(id) == addr {
				k.dials = append(k.dials, id)
				if k.dialErr != nil {
					if err := k.dialErr(id); err != nil {
						return nil, err
					}
				}
				return k.conn(id), nil
			}
		}
		return nil, errors.New("dial: no such host")
	}
}

func (k *vpCluster) conn(id int32) *vpConn {
	c := &vpConn{maxRead: k.maxRead}
	var pend []byte
	c.onWrite = func(c *vpConn, b []byte) error {
		pend = append(pend, b...)
		for len(pend) >= 4 {
			n := int(uint32(pend[0])<<24 | uint32(pend[1])<<16 | uint32(pend[2])<<8 | uint32(pend[3]))
			if len(pend) < 4+n {
				return nil
			}
			raw := pend[:4+n]
			pend = pend[4+n:]
			k.serve(id, c, raw)
		}
		return nil
	}
	k.conns = append(k.conns, c)
	if k.onConn != nil {
		k.onConn(id, c)
	}
	return c
}

func (k *vpCluster) serve(id int32, c *vpConn, raw []byte) {
	r := &vpRd{b: raw}
	r.i32()
	q := &vpReq{node: id, conn: c, api: r.u16(), ver: r.u16(), corr: r.u32(), raw: raw}
	q.client = r.nstr()
	q.rd = r
	k.log = append(k.log, q)
	if k.handle != nil {
		if resp, ok := k.handle(q); ok {
			c.in = append(c.in, resp...)
			return
		}
	}
	c.in = append(c.in, k.answer(q)...)
}

// answer is the well-behaved broker's answer.
func (k *vpCluster) answer(q *vpReq) []byte {
	w := &vpW{}
	w.u32(q.corr)
	switch q.api {
	case 18: // ApiVersions
		w.i16(0)
		apis := k.apis
		if apis == nil {
			apis = []uint16{0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 17, 36}
		}
		w.arr(false, len(apis))
		for _, a := range apis {
			w.u16(a)
			if v, ok := k.ranges[a]; ok {
				w.u16(v[0])
				w.u16(v[1])
			} else {
				w.u16(0)
				w.u16(15)
			}
		}
	case 3: // Metadata
		n := int(q.rd.i32())
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, q.rd.str())
		}
		k.metadata(w, q.ver, n, names)
	case 10: // FindCoordinator v0
		w.i16(0)
		w.i32(k.coord)
		w.str(false, vpNodeHost(k.coord))
		w.i32(9092)
	case 17:
		w.i16(0)
		w.arr(false, 1)
		w.str(false, "PLAIN")
	case 36:
		w.i16(0)
		w.nstr(false, nil)
		w.bytes(false, nil)
	case 12, 13:
		w.i16(0)
	default:
		return nil
	}
	return vpFrame(w.b)
}

func vpNodeHost(id int32) string { return "b" + string(rune('0'+id)) }

func (k *vpCluster) metadata(w *vpW, v uint16, n int, names []string) {
	if v >= 3 {
		w.i32(0)
	}
	w.arr(false, len(k.nodes))
	for _, id := range k.nodes {
		w.i32(id)
		w.str(false, vpNodeHost(id))
		w.i32(9092)
		if v >= 1 {
			w.nstr(false, nil)
		}
	}
	if v >= 2 {
		w.nstr(false, nil)
	}
	if v >= 1 {
		w.i32(k.controller)
	}
	var ts []vpTopic
	if n < 0 || (n == 0 && v == 0) {
		ts = k.topics
	}
	for _, nm := range names {
		t := vpTopic{name: nm, err: 3}
		for _, x := range k.topics {
			if x.name == nm {
				t = x
			}
		}
		ts = append(ts, t)
	}
	w.arr(false, len(ts))
	for _, t := range ts {
		w.i16(t.err)
		w.str(false, t.name)
		if v >= 1 {
			w.bool(false)
		}
		w.arr(false, len(t.parts))
		for _, p := range t.parts {
			w.i16(p.err)
			w.i32(p.id)
			w.i32(p.leader)
			if v >= 7 {
				w.i32(0)
			}
			w.i32s(false, []int32{p.leader})
			w.i32s(false, []int32{p.leader})
			if v >= 5 {
				w.i32s(false, nil)
			}
		}
	}
}

// requests of one API in the order they arrived
func (k *vpCluster) of(api uint16) (r []*vpReq) {
	for _, q := range k.log {
		if q.api == api {
			r = append(r, q)
		}
	}
	return
}

func vpBrokerCfg() *BrokerConfig { return DefaultBrokerConfig() }
