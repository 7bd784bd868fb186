package main

// Hash-consed bit-vector / boolean terms with a normalising simplifier.
// Width 0 means Bool. Widths are 1..64.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // k = hi<<8|lo
	OSExt
)

type Term struct {
	op      Op
	w       uint16
	a, b, c *Term
	k       uint64
	name    string
	id      uint32
	vars    []uint32 // sorted ids of variables below (computed lazily)
	varsOK  bool
	umaxv   uint64
	umaxOK  bool
}

type tkey struct {
	op      Op
	w       uint16
	a, b, c uint32
	k       uint64
	name    string
}

type Ctx struct {
	tab    map[tkey]*Term
	byID   []*Term
	tru    *Term
	fls    *Term
	small  [65][]*Term
	solver *Solver
	qcache map[string]qres
}

func newCtx() *Ctx {
	c := &Ctx{}
	c.resetTerms()
	return c
}

func (c *Ctx) resetTerms() {
	c.tab = map[tkey]*Term{}
	c.byID = nil
	c.qcache = map[string]qres{}
	for i := range c.small {
		c.small[i] = nil
	}
	c.tru = c.mk(OTrue, 0, nil, nil, nil, 0, "")
	c.fls = c.mk(OFalse, 0, nil, nil, nil, 0, "")
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0xffffffff
	}
	return t.id
}

func (c *Ctx) mk(op Op, w int, a, b, d *Term, k uint64, name string) *Term {
	key := tkey{op, uint16(w), tid(a), tid(b), tid(d), k, name}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: uint16(w), a: a, b: b, c: d, k: k, name: name, id: uint32(len(c.byID))}
	c.tab[key] = t
	c.byID = append(c.byID, t)
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

func (c *Ctx) K(v uint64, w int) *Term {
	v &= mask(w)
	if v < 512 {
		if c.small[w] == nil {
			c.small[w] = make([]*Term, 512)
		}
		if t := c.small[w][v]; t != nil {
			return t
		}
		t := c.mk(OConst, w, nil, nil, nil, v, "")
		c.small[w][v] = t
		return t
	}
	return c.mk(OConst, w, nil, nil, nil, v, "")
}

func (c *Ctx) B(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) Var(name string, w int) *Term { return c.mk(OVar, w, nil, nil, nil, 0, name) }

func (t *Term) isC() bool    { return t.op == OConst }
func (t *Term) isK() bool    { return t.op == OConst || t.op == OTrue || t.op == OFalse }
func (t *Term) isZero() bool { return t.op == OConst && t.k == 0 }
func (t *Term) isOnes() bool { return t.op == OConst && t.k == mask(int(t.w)) }

func (t *Term) umax() uint64 {
	if t.umaxOK {
		return t.umaxv
	}
	w := int(t.w)
	m := mask(w)
	r := m
	switch t.op {
	case OConst:
		r = t.k
	case OConcat:
		r = t.a.umax()<<uint(t.b.w) | t.b.umax()
	case OIte:
		r = t.b.umax()
		if y := t.c.umax(); y > r {
			r = y
		}
	case OBAnd:
		r = t.a.umax()
		if y := t.b.umax(); y < r {
			r = y
		}
	case OURem:
		if t.b.isC() && t.b.k > 0 {
			r = t.b.k - 1
		}
	case OUDiv:
		if t.b.isC() && t.b.k > 0 {
			r = t.a.umax() / t.b.k
		}
	case OAdd:
		x, y := t.a.umax(), t.b.umax()
		if s, carry := bits.Add64(x, y, 0); carry == 0 && s <= m {
			r = s
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.umax(), t.b.umax())
		if hi == 0 && lo <= m {
			r = lo
		}
	case OBOr, OBXor:
		x, y := t.a.umax(), t.b.umax()
		n := bits.Len64(x | y)
		r = mask(n)
	}
	t.umaxv, t.umaxOK = r, true
	return r
}

// signNonNeg: the top bit is known to be zero
func (t *Term) signNonNeg() bool { return t.umax()>>(uint(t.w)-1) == 0 }

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.fls
	case OFalse:
		return c.tru
	case ONot:
		return a.a
	case OUlt:
		return c.mk(OUle, 0, a.b, a.a, nil, 0, "")
	case OUle:
		return c.mk(OUlt, 0, a.b, a.a, nil, 0, "")
	case OSlt:
		return c.mk(OSle, 0, a.b, a.a, nil, 0, "")
	case OSle:
		return c.mk(OSlt, 0, a.b, a.a, nil, 0, "")
	}
	return c.mk(ONot, 0, a, nil, nil, 0, "")
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b || b.op == OTrue {
		return a
	}
	if a.op == OTrue {
		return b
	}
	if a.op == OFalse || b.op == OFalse {
		return c.fls
	}
	if c.Not(a) == b {
		return c.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0, "")
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == b || b.op == OFalse {
		return a
	}
	if a.op == OFalse {
		return b
	}
	if a.op == OTrue || b.op == OTrue {
		return c.tru
	}
	if c.Not(a) == b {
		return c.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0, "")
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.op == OTrue {
			return b
		}
		if b.op == OTrue {
			return a
		}
		if a.op == OFalse {
			return c.Not(b)
		}
		if b.op == OFalse {
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil, 0, "")
	}
	if a.isC() && b.isC() {
		return c.B(a.k == b.k)
	}
	if a.isC() {
		a, b = b, a
	}
	// now b maybe const
	if b.isC() {
		if b.k > a.umax() {
			return c.fls
		}
		switch a.op {
		case OConcat:
			lw := uint(a.b.w)
			hi := c.Eq(a.a, c.K(b.k>>lw, int(a.a.w)))
			if hi.op == OFalse {
				return c.fls
			}
			return c.And(hi, c.Eq(a.b, c.K(b.k, int(lw))))
		case OAdd:
			if a.b.isC() {
				return c.Eq(a.a, c.K(b.k-a.b.k, int(a.w)))
			}
		case OSub:
			if a.a.isC() {
				return c.Eq(a.b, c.K(a.a.k-b.k, int(a.w)))
			}
		case OBNot:
			return c.Eq(a.a, c.K(^b.k, int(a.w)))
		case OBXor:
			if a.b.isC() {
				return c.Eq(a.a, c.K(a.b.k^b.k, int(a.w)))
			}
		case OSExt:
			iw := int(a.a.w)
			if uint64(sx(b.k, iw))&mask(int(a.w)) == b.k {
				return c.Eq(a.a, c.K(b.k, iw))
			}
			return c.fls
		case OIte:
			if a.b.isC() || a.c.isC() {
				t, e := c.Eq(a.b, b), c.Eq(a.c, b)
				if t.isK() || e.isK() {
					return c.Ite(a.a, t, e)
				}
			}
		}
	} else if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	} else if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	} else if a.op == OAdd && b.op == OAdd && a.b == b.b {
		return c.Eq(a.a, b.a)
	} else if a.op == OAdd && a.b.isC() && a.a == b {
		return c.B(a.b.k == 0)
	} else if b.op == OAdd && b.b.isC() && b.a == a {
		return c.B(b.b.k == 0)
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0, "")
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b || b.isZero() {
		return c.fls
	}
	if a.isC() && b.isC() {
		return c.B(a.k < b.k)
	}
	if b.isC() && a.umax() < b.k {
		return c.tru
	}
	if a.isC() && a.k >= b.umax() {
		return c.fls
	}
	if b.isC() && b.k == 1 {
		return c.Eq(a, c.K(0, int(a.w)))
	}
	if a.isC() && a.k == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.op == OConcat && b.op == OConcat && a.a == b.a {
		return c.Ult(a.b, b.b)
	}
	// zero-extended both sides
	if a.op == OConcat && a.a.isZero() && b.isC() && b.k <= mask(int(a.b.w)) {
		return c.Ult(a.b, c.K(b.k, int(a.b.w)))
	}
	if b.op == OConcat && b.a.isZero() && a.isC() && a.k <= mask(int(b.b.w)) {
		return c.Ult(c.K(a.k, int(b.b.w)), b.b)
	}
	return c.mk(OUlt, 0, a, b, nil, 0, "")
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	w := int(a.w)
	if a.isC() && b.isC() {
		return c.B(sx(a.k, w) < sx(b.k, w))
	}
	an, bn := a.signNonNeg(), b.signNonNeg()
	if an && bn {
		return c.Ult(a, b)
	}
	if an && b.isC() { // b negative
		return c.fls
	}
	if bn && a.isC() {
		return c.tru
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	if a.op == OSExt && b.isC() {
		iw := int(a.a.w)
		v := sx(b.k, w)
		lo, hi := -(int64(1) << uint(iw-1)), int64(1)<<uint(iw-1)-1
		if v > hi {
			return c.tru
		}
		if v <= lo {
			return c.fls
		}
		return c.Slt(a.a, c.K(uint64(v), iw))
	}
	if b.op == OSExt && a.isC() {
		iw := int(b.a.w)
		v := sx(a.k, w)
		lo, hi := -(int64(1) << uint(iw-1)), int64(1)<<uint(iw-1)-1
		if v >= hi {
			return c.fls
		}
		if v < lo {
			return c.tru
		}
		return c.Slt(c.K(uint64(v), iw), b.a)
	}
	return c.mk(OSlt, 0, a, b, nil, 0, "")
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Ite(x, a, b *Term) *Term {
	if x.op == OTrue {
		return a
	}
	if x.op == OFalse {
		return b
	}
	if a == b {
		return a
	}
	if x.op == ONot {
		return c.Ite(x.a, b, a)
	}
	if a.w == 0 {
		if a.op == OTrue {
			return c.Or(x, b)
		}
		if a.op == OFalse {
			return c.And(c.Not(x), b)
		}
		if b.op == OTrue {
			return c.Or(c.Not(x), a)
		}
		if b.op == OFalse {
			return c.And(x, a)
		}
	}
	return c.mk(OIte, int(a.w), x, a, b, 0, "")
}

// ---- bit-vector structure

func (c *Ctx) Concat(hi, lo *Term) *Term {
	w := int(hi.w) + int(lo.w)
	if w > 64 {
		panic("concat >64")
	}
	if hi.isC() && lo.isC() {
		return c.K(hi.k<<uint(lo.w)|lo.k, w)
	}
	if hi.op == OConcat {
		return c.Concat(hi.a, c.Concat(hi.b, lo))
	}
	// hi is atomic; merge with head of lo
	head, rest := lo, (*Term)(nil)
	if lo.op == OConcat {
		head, rest = lo.a, lo.b
	}
	var m *Term
	if hi.isC() && head.isC() {
		m = c.K(hi.k<<uint(head.w)|head.k, int(hi.w)+int(head.w))
	} else if hb, hh, hl, ok := asExt(hi); ok {
		if lb, lh, ll, ok2 := asExt(head); ok2 && hb == lb && hl == lh+1 {
			m = c.Extract(hb, hh, ll)
		}
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return c.Concat(m, rest)
	}
	return c.mk(OConcat, w, hi, lo, nil, 0, "")
}

func asExt(t *Term) (base *Term, hi, lo int, ok bool) {
	if t.op == OExtract {
		return t.a, int(t.k >> 8), int(t.k & 255), true
	}
	return nil, 0, 0, false
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(t.w) {
		return t
	}
	switch t.op {
	case OConst:
		return c.K(t.k>>uint(lo), w)
	case OExtract:
		l := int(t.k & 255)
		return c.Extract(t.a, hi+l, lo+l)
	case OConcat:
		lw := int(t.b.w)
		if hi < lw {
			return c.Extract(t.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(t.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(t.a, hi-lw, 0), c.Extract(t.b, lw-1, lo))
	case OSExt:
		iw := int(t.a.w)
		if hi < iw {
			return c.Extract(t.a, hi, lo)
		}
		if lo == 0 {
			return c.SExt(t.a, w)
		}
		if lo < iw {
			return c.SExt(c.Extract(t.a, iw-1, lo), w)
		}
		return c.SExt(c.Extract(t.a, iw-1, iw-1), w)
	case OBAnd:
		return c.BAnd(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OBOr:
		return c.BOr(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OBXor:
		return c.BXor(c.Extract(t.a, hi, lo), c.Extract(t.b, hi, lo))
	case OBNot:
		return c.BNot(c.Extract(t.a, hi, lo))
	case OIte:
		if t.b.isC() || t.c.isC() {
			return c.Ite(t.a, c.Extract(t.b, hi, lo), c.Extract(t.c, hi, lo))
		}
	case OAdd:
		if lo == 0 {
			return c.Add(c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.a, hi, 0), c.Extract(t.b, hi, 0))
		}
	}
	return c.mk(OExtract, w, t, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (c *Ctx) ZExt(t *Term, w int) *Term {
	if w == int(t.w) {
		return t
	}
	return c.Concat(c.K(0, w-int(t.w)), t)
}

func (c *Ctx) SExt(t *Term, w int) *Term {
	if w == int(t.w) {
		return t
	}
	if t.isC() {
		return c.K(uint64(sx(t.k, int(t.w))), w)
	}
	if t.signNonNeg() {
		return c.ZExt(t, w)
	}
	if t.op == OSExt {
		return c.SExt(t.a, w)
	}
	return c.mk(OSExt, w, t, nil, nil, 0, "")
}

// segs: list of (term) from high to low
func segs(t *Term, out []*Term) []*Term {
	for t.op == OConcat {
		out = append(out, t.a)
		t = t.b
	}
	return append(out, t)
}

// segwise applies f over aligned segments if both operands are (partly) concatenations/constants; f returns nil to give up
func (c *Ctx) segwise(a, b *Term, f func(x, y *Term) *Term) *Term {
	sa, sb := segs(a, nil), segs(b, nil)
	if len(sa) == 1 && len(sb) == 1 && !a.isC() && !b.isC() {
		return nil
	}
	i, j := len(sa)-1, len(sb)-1
	la, lb := 0, 0 // consumed low bits in current seg
	var res *Term
	for i >= 0 && j >= 0 {
		ra, rb := int(sa[i].w)-la, int(sb[j].w)-lb
		n := ra
		if rb < n {
			n = rb
		}
		x := c.Extract(sa[i], la+n-1, la)
		y := c.Extract(sb[j], lb+n-1, lb)
		r := f(x, y)
		if r == nil {
			return nil
		}
		if res == nil {
			res = r
		} else {
			res = c.Concat(r, res)
		}
		la += n
		lb += n
		if la == int(sa[i].w) {
			i--
			la = 0
		}
		if lb == int(sb[j].w) {
			j--
			lb = 0
		}
	}
	return res
}

// runs of constant mask -> segmented constants, so that And with 0x7f etc. become concats
func (c *Ctx) constSegs(k uint64, w int) []*Term { return nil }

func (c *Ctx) andConst(x *Term, k uint64) *Term {
	w := int(x.w)
	var res *Term
	i := 0
	for i < w {
		bit := k >> uint(i) & 1
		j := i
		for j < w && k>>uint(j)&1 == bit {
			j++
		}
		var p *Term
		if bit == 1 {
			p = c.Extract(x, j-1, i)
		} else {
			p = c.K(0, j-i)
		}
		if res == nil {
			res = p
		} else {
			res = c.Concat(p, res)
		}
		i = j
	}
	return res
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.K(a.k&b.k, int(a.w))
		}
		return c.andConst(a, b.k)
	}
	if r := c.segwise(a, b, func(x, y *Term) *Term {
		if x.isZero() || y.isOnes() {
			return x
		}
		if y.isZero() || x.isOnes() {
			return y
		}
		if x == y {
			return x
		}
		return nil
	}); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, int(a.w), a, b, nil, 0, "")
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.K(a.k|b.k, int(a.w))
		}
		if b.k == 0 {
			return a
		}
		w := int(a.w)
		var res *Term
		i := 0
		for i < w {
			bit := b.k >> uint(i) & 1
			j := i
			for j < w && b.k>>uint(j)&1 == bit {
				j++
			}
			var p *Term
			if bit == 0 {
				p = c.Extract(a, j-1, i)
			} else {
				p = c.K(mask(j-i), j-i)
			}
			if res == nil {
				res = p
			} else {
				res = c.Concat(p, res)
			}
			i = j
		}
		return res
	}
	if r := c.segwise(a, b, func(x, y *Term) *Term {
		if x.isZero() || y.isOnes() {
			return y
		}
		if y.isZero() || x.isOnes() {
			return x
		}
		if x == y {
			return x
		}
		return nil
	}); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBOr, int(a.w), a, b, nil, 0, "")
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.K(0, int(a.w))
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.K(a.k^b.k, int(a.w))
		}
		if b.k == 0 {
			return a
		}
		if b.isOnes() {
			return c.BNot(a)
		}
		if a.op == OBXor && a.b.isC() {
			return c.BXor(a.a, c.K(a.b.k^b.k, int(a.w)))
		}
	}
	if r := c.segwise(a, b, func(x, y *Term) *Term {
		if x.isZero() {
			return y
		}
		if y.isZero() {
			return x
		}
		if x == y {
			return c.K(0, int(x.w))
		}
		if x.isC() && y.isC() {
			return c.K(x.k^y.k, int(x.w))
		}
		return nil
	}); r != nil {
		return r
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return c.mk(OBXor, int(a.w), a, b, nil, 0, "")
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isC() {
		return c.K(^a.k, int(a.w))
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, int(a.w), a, nil, nil, 0, "")
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := int(a.w)
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.K(a.k+b.k, w)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OAdd && a.b.isC() {
			return c.Add(a.a, c.K(a.b.k+b.k, w))
		}
		if a.op == OSub && a.a.isC() {
			return c.Sub(c.K(a.a.k+b.k, w), a.b)
		}
	} else {
		// disjoint bits: same as or
		if r := c.segwise(a, b, func(x, y *Term) *Term {
			if x.isZero() {
				return y
			}
			if y.isZero() {
				return x
			}
			return nil
		}); r != nil {
			return r
		}
		if a.op == OAdd && a.b.isC() {
			return c.Add(c.Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isC() {
			return c.Add(c.Add(a, b.a), b.b)
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OAdd, w, a, b, nil, 0, "")
}

func (c *Ctx) Sub(a, b *Term) *Term {
	w := int(a.w)
	if a == b {
		return c.K(0, w)
	}
	if b.isC() {
		return c.Add(a, c.K(-b.k, w))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	return c.mk(OSub, w, a, b, nil, 0, "")
}

func (c *Ctx) Mul(a, b *Term) *Term {
	w := int(a.w)
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.K(a.k*b.k, w)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if bits.OnesCount64(b.k) == 1 {
			return c.ShlK(a, bits.TrailingZeros64(b.k))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, w, a, b, nil, 0, "")
}

func (c *Ctx) ShlK(a *Term, n int) *Term {
	w := int(a.w)
	if n == 0 {
		return a
	}
	if n >= w {
		return c.K(0, w)
	}
	return c.Concat(c.Extract(a, w-1-n, 0), c.K(0, n))
}
func (c *Ctx) LShrK(a *Term, n int) *Term {
	w := int(a.w)
	if n == 0 {
		return a
	}
	if n >= w {
		return c.K(0, w)
	}
	return c.ZExt(c.Extract(a, w-1, n), w)
}
func (c *Ctx) AShrK(a *Term, n int) *Term {
	w := int(a.w)
	if n == 0 {
		return a
	}
	if n >= w {
		n = w - 1
	}
	return c.SExt(c.Extract(a, w-1, n), w)
}

// shifts with same-width count (SMT semantics)
func (c *Ctx) Shift(op Op, a, n *Term) *Term {
	if n.isC() {
		k := int(n.k)
		if n.k > 64 {
			k = 64
		}
		switch op {
		case OShl:
			return c.ShlK(a, k)
		case OLShr:
			return c.LShrK(a, k)
		case OAShr:
			return c.AShrK(a, k)
		}
	}
	return c.mk(op, int(a.w), a, n, nil, 0, "")
}

func (c *Ctx) Div(op Op, a, b *Term) *Term {
	w := int(a.w)
	if a.isC() && b.isC() && b.k != 0 {
		return c.K(evalDiv(op, a.k, b.k, w), w)
	}
	if b.isC() && b.k == 1 {
		if op == OUDiv || op == OSDiv {
			return a
		}
		return c.K(0, w)
	}
	if (op == OSDiv || op == OSRem) && a.signNonNeg() && b.signNonNeg() {
		if op == OSDiv {
			op = OUDiv
		} else {
			op = OURem
		}
	}
	if b.isC() && bits.OnesCount64(b.k) == 1 {
		n := bits.TrailingZeros64(b.k)
		if op == OUDiv {
			return c.LShrK(a, n)
		}
		if op == OURem {
			return c.andConst(a, b.k-1)
		}
	}
	return c.mk(op, w, a, b, nil, 0, "")
}

func evalDiv(op Op, a, b uint64, w int) uint64 {
	switch op {
	case OUDiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	}
	panic("evalDiv")
}

// ---- evaluation under a model

type Model map[uint32]uint64 // var id -> value

type evaler struct {
	m    Model
	memo map[uint32]uint64
}

func (e *evaler) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar:
		return e.m[t.id]
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	w := int(t.w)
	switch t.op {
	case ONot:
		r = 1 - e.eval(t.a)
	case OAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OUlt:
		r = b2u(e.eval(t.a) < e.eval(t.b))
	case OUle:
		r = b2u(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		aw := int(t.a.w)
		r = b2u(sx(e.eval(t.a), aw) < sx(e.eval(t.b), aw))
	case OSle:
		aw := int(t.a.w)
		r = b2u(sx(e.eval(t.a), aw) <= sx(e.eval(t.b), aw))
	case OIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OAdd:
		r = e.eval(t.a) + e.eval(t.b)
	case OSub:
		r = e.eval(t.a) - e.eval(t.b)
	case OMul:
		r = e.eval(t.a) * e.eval(t.b)
	case OUDiv, OSDiv, OURem, OSRem:
		r = evalDiv(t.op, e.eval(t.a), e.eval(t.b), w)
	case OBAnd:
		r = e.eval(t.a) & e.eval(t.b)
	case OBOr:
		r = e.eval(t.a) | e.eval(t.b)
	case OBXor:
		r = e.eval(t.a) ^ e.eval(t.b)
	case OBNot:
		r = ^e.eval(t.a)
	case OShl:
		n := e.eval(t.b)
		if n < uint64(w) {
			r = e.eval(t.a) << n
		}
	case OLShr:
		n := e.eval(t.b)
		if n < uint64(w) {
			r = e.eval(t.a) >> n
		}
	case OAShr:
		n := e.eval(t.b)
		if n >= uint64(w) {
			n = uint64(w) - 1
		}
		r = uint64(sx(e.eval(t.a), w) >> n)
	case OConcat:
		r = e.eval(t.a)<<uint(t.b.w) | e.eval(t.b)
	case OExtract:
		r = e.eval(t.a) >> (t.k & 255)
	case OSExt:
		r = uint64(sx(e.eval(t.a), int(t.a.w)))
	default:
		panic("eval op")
	}
	if w > 0 {
		r &= mask(w)
	}
	e.memo[t.id] = r
	return r
}

// ---- variables below a term

func (c *Ctx) varsOf(t *Term) []uint32 {
	if t.varsOK {
		return t.vars
	}
	var r []uint32
	if t.op == OVar {
		r = []uint32{t.id}
	} else {
		for _, s := range []*Term{t.a, t.b, t.c} {
			if s == nil {
				continue
			}
			vs := c.varsOf(s)
			if len(vs) == 0 {
				continue
			}
			if len(r) == 0 {
				r = vs
			} else {
				r = mergeVars(r, vs)
			}
		}
	}
	t.vars, t.varsOK = r, true
	return r
}

func mergeVars(a, b []uint32) []uint32 {
	out := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

// ---- SMT-LIB printing

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat"}

func smtSym(t *Term) string { return fmt.Sprintf("v%d", t.id) }

func smtAtom(t *Term) (string, bool) {
	switch t.op {
	case OTrue:
		return "true", true
	case OFalse:
		return "false", true
	case OConst:
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w), true
	case OVar:
		return smtSym(t), true
	}
	return "", false
}

// smtPrint renders t with let-bindings for shared nodes.
func smtPrint(t *Term) string {
	if s, ok := smtAtom(t); ok {
		return s
	}
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil {
			return
		}
		if _, ok := smtAtom(t); ok {
			return
		}
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
		order = append(order, t)
	}
	walk(t)
	var sb strings.Builder
	bound := map[*Term]bool{}
	var pr func(t *Term)
	pr = func(t *Term) {
		if s, ok := smtAtom(t); ok {
			sb.WriteString(s)
			return
		}
		if bound[t] {
			fmt.Fprintf(&sb, "x%d", t.id)
			return
		}
		switch t.op {
		case OExtract:
			fmt.Fprintf(&sb, "((_ extract %d %d) ", t.k>>8, t.k&255)
		case OSExt:
			fmt.Fprintf(&sb, "((_ sign_extend %d) ", t.w-t.a.w)
		default:
			sb.WriteString("(" + opName[t.op] + " ")
		}
		pr(t.a)
		if t.b != nil {
			sb.WriteByte(' ')
			pr(t.b)
		}
		if t.c != nil {
			sb.WriteByte(' ')
			pr(t.c)
		}
		sb.WriteByte(')')
	}
	n := 0
	for _, s := range order {
		if cnt[s] > 1 && s != t {
			fmt.Fprintf(&sb, "(let ((x%d ", s.id)
			pr(s)
			sb.WriteString(")) ")
			bound[s] = true
			n++
		}
	}
	pr(t)
	sb.WriteString(strings.Repeat(")", n))
	return sb.String()
}

func sortedIDs(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	last := -1
	for _, i := range ids {
		if i != last {
			fmt.Fprintf(&sb, "%d,", i)
		}
		last = i
	}
	return sb.String()
}
