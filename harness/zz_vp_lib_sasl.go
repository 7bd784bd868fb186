package healer

// vpSasl makes a cluster demand SASL/PLAIN on every connection: it asserts that nothing is asked on a connection that is
// not authenticated, that the configured mechanism and credentials are sent as RFC 4616 says, and that a connection
// whose authentication failed is not used any more.
type vpSasl struct {
	mech, user, pw string
	state          map[*vpConn]int // 0: new, 1: handshake done, 2: authenticated, 3: failed
	fault          func(q *vpReq) (kind int, code int16)
	auths          int
}

const (
	vpSaslFine  = iota
	vpSaslCode  // refused with a code
	vpSaslEOF   // closed instead of an answer
	vpSaslLate  // not answered in time, the answer comes later
	vpSaslHalf  // closed inside the answer
	vpSaslKinds // how many
)

func (s *vpSasl) guard(k *vpCluster) {
	s.state = map[*vpConn]int{}
	inner := k.handle
	k.handle = func(q *vpReq) ([]byte, bool) {
		r := &vpRd{b: q.raw, o: q.rd.o}
		st := s.state[q.conn]
		vpAssert(st != 3, "a connection whose authentication failed is not used")
		next := st
		switch q.api {
		case 18:
			vpAssert(st == 0, "the API versions are asked first")
		case 17:
			vpAssert(st == 0, "one handshake")
			vpAssert(r.str() == s.mech && !r.bad && r.o == len(q.raw), "the handshake names the configured mechanism")
			next = 1
		case 36:
			vpAssert(st == 1, "authentication follows the handshake")
			token := r.take(int(r.i32()))
			want := append([]byte{0}, s.user...)
			want = append(want, 0)
			want = append(want, s.pw...)
			vpAssert(!r.bad && r.o == len(q.raw) && vpEqBytes(token, want), "the token is NUL user NUL password")
			next = 2
		default:
			vpAssert(st == 2, "nothing is asked on a connection that is not authenticated")
			if inner == nil {
				return nil, false
			}
			return inner(q)
		}
		kind, code := vpSaslFine, int16(0)
		if s.fault != nil {
			kind, code = s.fault(q)
		}
		if kind != vpSaslFine {
			s.state[q.conn] = 3
		} else {
			s.state[q.conn] = next
			if next == 2 && st != 2 {
				s.auths++
			}
		}
		full := k.answer(q)
		switch kind {
		case vpSaslCode:
			full[8], full[9] = byte(code>>8), byte(code)
		case vpSaslEOF:
			return nil, true
		case vpSaslLate:
			q.conn.late = full
			return nil, true
		case vpSaslHalf:
			return full[:len(full)-1], true
		}
		return full, true
	}
}

// an error code of the authentication, or any code healer does not know
func vpSaslErr(name string) int16 {
	codes := []int16{33, 34, 58, 35}
	if i := vpChoose(name, len(codes)+1); i < len(codes) {
		return codes[i]
	}
	c := vpI16(name + ".x")
	vpAssume(vpOr(c > 1000, c < -10))
	return c
}
