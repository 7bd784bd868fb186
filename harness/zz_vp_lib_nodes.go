package healer

import "errors"

// vpNodes lets the nodes of a cluster be up (0), down (1: dials are refused, connections are broken) or silent (2: connections are
// accepted, nothing is answered).
type vpNodes struct {
	k    *vpCluster
	mode map[int32]int
}

func vpNewNodes(k *vpCluster, next func(q *vpReq) ([]byte, bool)) *vpNodes {
	n := &vpNodes{k: k, mode: map[int32]int{}}
	k.dialErr = func(id int32) error {
		if n.mode[id] == 1 {
			return errors.New("connection refused")
		}
		return nil
	}
	k.handle = func(q *vpReq) ([]byte, bool) {
		switch n.mode[q.node] {
		case 1:
			return nil, true
		case 2:
			q.conn.readErr = vpTimeoutErr{}
			return nil, true
		}
		if next != nil {
			return next(q)
		}
		return nil, false
	}
	return n
}

// connections that are open
func (k *vpCluster) open() (n int) {
	for _, c := range k.conns {
		if !c.closed {
			n++
		}
	}
	return
}
