package healer

import "strconv"

// VpCLI runs the command line tool; the tool's package sets it.
var VpCLI func(args []string) error

// vpCLI runs the tool with this standard input: what it prints, and whether it fails.
func vpCLI(in []byte, args ...string) (out string, err error) {
	vpStdio(in)
	vpNoPanic("the tool", func() { err = VpCLI(args) })
	return vpStdout(), err
}

// a byte of text
func vpLetter(name string) byte {
	b := vpU8(name)
	vpAssume(vpAnd(b >= 'a', b <= 'z'))
	return b
}

func vpCLICluster(parts int32) *vpCluster {
	k := &vpCluster{nodes: []int32{1, 2}, controller: 1, coord: 2, topics: []vpTopic{{name: "t"}}}
	for p := int32(0); p < parts; p++ {
		k.topics[0].parts = append(k.topics[0].parts, vpPart{id: p, leader: 1 + p%2})
	}
	return k
}

// VpServe serves one HTTP request with the handler it is given; the tool's package sets it.
var VpServe any

// VpHTTP is that request, and its answer.
var VpHTTP *VpHTTPRequest

type VpHTTPRequest struct {
	Method, Path, Query, Body, Auth string
	Code                            int
	Out                             string
	Panic                           bool
}

// vpHTTP asks the HTTP server.
func vpHTTP(q *VpHTTPRequest, args ...string) *VpHTTPRequest {
	VpHTTP = q
	_, err := vpCLI(nil, append([]string{"api"}, args...)...)
	vpAssert(err == nil, "the server runs")
	vpAssert(!q.Panic, "no request makes the server panic")
	return q
}

// a cluster of two brokers, the second of which is in charge of everything, that knows these APIs in version 0 to v
func vpAdminCluster(v uint16, apis ...uint16) *vpCluster {
	k := &vpCluster{nodes: []int32{1, 2}, controller: 2, coord: 2, topics: []vpTopic{{name: "t", parts: []vpPart{{id: 0, leader: 1}}}}}
	k.apis = append([]uint16{3, 10}, apis...)
	k.ranges = map[uint16][2]uint16{10: {0, 0}}
	for _, a := range apis {
		k.ranges[a] = [2]uint16{0, v}
	}
	return k
}

// what fails: 1 the broker refuses, 2 it is down, 3 it cuts its answer off
var vpAdminFault int

// the request's body, for those that can be written in several ways
var vpAdminBody []byte

// One command whose request goes to node (0: nowhere, it is to be refused): the request is exactly the one wanted, sent once, and the tool fails exactly if
// the broker refuses (error code 41, at the innermost level), is down, or cuts its answer off.
func vpAdminCommand(k *vpCluster, node int32, api uint16, flex bool, want func(w *vpW), body func(w *vpW, code int16), args ...string) {
	vpAdminRun(k, node, api, flex, want, body, func(bootstrap string) bool {
		_, err := vpCLI(nil, append([]string{args[0], "-b", bootstrap}, args[1:]...)...)
		return err == nil
	})
}

func vpAdminRun(k *vpCluster, node int32, api uint16, flex bool, want func(w *vpW), body func(w *vpW, code int16), run func(bootstrap string) bool) {
	fault := 0
	if node > 0 {
		fault = vpChoose("fault", 4)
	}
	vpAdminFault = fault
	asked := 0
	n := vpNewNodes(k, func(q *vpReq) ([]byte, bool) {
		if q.api == 3 || q.api == 18 || q.api == 10 && api != 10 {
			return nil, false
		}
		asked++
		vpAssert(q.api == api && q.node == node, "the broker in charge is asked")
		if flex {
			q.rd.u8()
		}
		w := &vpW{}
		vpAdminBody = q.raw[q.rd.o:]
		want(w)
		vpAssert(vpEqBytes(vpAdminBody, w.b), "the request says what was asked for")
		w = &vpW{}
		w.u32(q.corr)
		if flex {
			w.u8(0)
		}
		code := int16(0)
		if fault == 1 {
			code = 41
		}
		body(w, code)
		full := vpFrame(w.b)
		if fault == 3 {
			full = full[:len(full)-1]
		}
		return full, true
	})
	k.install()
	bootstrap := vpNodeAddr(1)
	if fault == 2 {
		n.mode[node] = 1
		if node == 1 {
			bootstrap = "nowhere:9092," + vpNodeAddr(2)
		}
	}
	vpAssert(run(bootstrap) == (node > 0 && fault == 0), "it fails exactly if the broker has not done it")
	vpAssert(asked == 1 || asked == 0 && (node == 0 || fault == 2), "the broker is asked once")
	vpReach("end")
}

func vpNum(name string, l ...int32) (int32, string) {
	n := l[vpChoose(name, len(l))]
	return n, strconv.Itoa(int(n))
}

// offsets of any number of partitions at once
func vpManyOffsets(q *vpReq, f func(part int32, ts int64) (off int64, code int16)) []byte {
	r := &vpRd{b: q.raw, o: q.rd.o}
	r.i32()
	vpAssert(r.i32() == 1 && r.str() == "t", "offsets of the topic are asked for")
	n := int(r.i32())
	w := &vpW{}
	w.u32(q.corr)
	w.arr(false, 1)
	w.str(false, "t")
	w.arr(false, n)
	for i := 0; i < n; i++ {
		p, ts := r.i32(), r.i64()
		max := int32(1)
		if q.ver == 0 {
			max = r.i32()
			vpAssert(max >= 1, "an offset is asked for")
		}
		off, code := f(p, ts)
		w.i32(p)
		w.i16(code)
		if q.ver == 0 {
			if max == 1 {
				w.arr(false, 1)
			} else { // older ones too
				w.arr(false, 2)
			}
			w.i64(off)
			if max > 1 {
				w.i64(off - 5)
			}
		} else {
			w.i64(ts)
			w.i64(off)
		}
	}
	vpAssert(!r.bad && r.o == len(q.raw), "the request is complete")
	return vpFrame(w.b)
}
