package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value any

type Str struct {
	s string
	b []*Term // non-nil iff some byte is symbolic
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Float struct{ f float64 }

type Ptr = *Value

// SymPtr points at a symbolically indexed element of a scalar array.
type SymPtr struct {
	arr *Array
	off int
	n   int
	idx *Term // 64-bit, known < n on this path
}

const pageSize = 64

type Array struct {
	n     int
	elem  types.Type
	pages [][]Value
}

type Slice struct {
	arr *Array
	off int
	len int
	cap int
}

type Struct struct{ f []Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	nat func(fr *Frame, args []Value) Value
}

type Tuple []Value

type mapEnt struct {
	k, v    Value
	deleted bool
}

type MapV struct {
	kt, vt types.Type
	ents   []*mapEnt
	idx    map[string]*mapEnt // concrete keys
	nsym   int
	n      int
	writer *Gor // writing just now (see memory.go)
}

type mapIter struct {
	m    *MapV
	left []*mapEnt
}

type strIter struct {
	s Str
	i int
}

// RType models reflect.Type; RValue models reflect.Value.
type RType struct{ t types.Type }
type RValue struct {
	t    types.Type
	v    Value
	addr Ptr
}

// Opaque: value of a modelled library object
type Opaque struct {
	kind string
	data map[string]Value
}

func newArray(n int, elem types.Type) *Array {
	return &Array{n: n, elem: elem, pages: make([][]Value, (n+pageSize-1)/pageSize)}
}

func (m *M) slot(a *Array, i int) *Value {
	p := i / pageSize
	if a.pages[p] == nil {
		n := pageSize
		if (p+1)*pageSize > a.n {
			n = a.n - p*pageSize
		}
		pg := make([]Value, n)
		for j := range pg {
			pg[j] = m.zero(a.elem)
		}
		a.pages[p] = pg
	}
	return &a.pages[p][i%pageSize]
}

func (m *M) aget(a *Array, i int) Value {
	p := i / pageSize
	if a.pages[p] == nil {
		return m.zero(a.elem)
	}
	return a.pages[p][i%pageSize]
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func (m *M) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Bool || u.Kind() == types.UntypedBool:
			return m.c.fls
		case u.Info()&types.IsInteger != 0:
			w, _ := intWidth(u)
			return m.c.K(0, w)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			return Float{}
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return Float{}
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArray(int(u.Len()), u.Elem())
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		tt := make(Tuple, u.Len())
		for i := range tt {
			tt[i] = m.zero(u.At(i).Type())
		}
		return tt
	case *types.Named, *types.Alias:
		return m.zero(t.Underlying())
	case *types.TypeParam:
		return m.zero(t.Underlying())
	}
	panic(m.unsupported("zero of " + t.String()))
}

func intWidth(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic("intWidth " + t.String())
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	panic("intWidth " + t.String())
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (m *M) copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Value, len(x.f))}
		for i, f := range x.f {
			n.f[i] = m.copyVal(f)
		}
		return n
	case *Array:
		n := &Array{n: x.n, elem: x.elem, pages: make([][]Value, len(x.pages))}
		for i, p := range x.pages {
			if p != nil {
				q := make([]Value, len(p))
				for j := range p {
					q[j] = m.copyVal(p[j])
				}
				n.pages[i] = q
			}
		}
		return n
	}
	return v
}

func (m *M) store(addr *Value, v Value) {
	switch x := v.(type) {
	case *Struct:
		if d, ok := (*addr).(*Struct); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range x.f {
				m.store(&d.f[i], x.f[i])
			}
			return
		}
		*addr = m.copyVal(v)
	case *Array:
		if d, ok := (*addr).(*Array); ok && d.n == x.n {
			if d == x {
				return
			}
			for i := 0; i < x.n; i++ {
				if x.pages[i/pageSize] == nil && d.pages[i/pageSize] == nil {
					i = (i/pageSize+1)*pageSize - 1
					continue
				}
				m.store(m.slot(d, i), m.aget(x, i))
			}
			return
		}
		*addr = m.copyVal(v)
	default:
		*addr = v
	}
}

// ---- strings

func (m *M) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = m.c.K(uint64(s.s[i]), 8)
	}
	return out
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isC() {
			return Str{b: b}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.k)
	}
	return Str{s: string(buf)}
}

func (m *M) strEq(a, b Str) *Term {
	if a.Len() != b.Len() {
		return m.c.fls
	}
	if a.b == nil && b.b == nil {
		return m.c.B(a.s == b.s)
	}
	r := m.c.tru
	x, y := m.strBytes(a), m.strBytes(b)
	for i := range x {
		r = m.c.And(r, m.c.Eq(x[i], y[i]))
	}
	return r
}

// strLess: a < b lexicographically
func (m *M) strLess(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return m.c.B(a.s < b.s)
	}
	x, y := m.strBytes(a), m.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := m.c.B(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(x[i], y[i]), r, m.c.Ult(x[i], y[i]))
	}
	return r
}

func (m *M) sliceBytes(s Slice) []*Term {
	out := make([]*Term, s.len)
	for i := 0; i < s.len; i++ {
		out[i] = m.aget(s.arr, s.off+i).(*Term)
	}
	return out
}

func (m *M) bytesSlice(b []*Term) Slice {
	a := newArray(len(b), types.Typ[types.Uint8])
	for i, t := range b {
		*m.slot(a, i) = t
	}
	return Slice{a, 0, len(b), len(b)}
}

func (m *M) concreteStr(v Value) (string, bool) {
	s, ok := v.(Str)
	if !ok || s.b != nil {
		return "", false
	}
	return s.s, true
}

// concretizeStr forks until every byte is fixed.
func (m *M) concretizeStr(s Str) string {
	if s.b == nil {
		return s.s
	}
	buf := make([]byte, len(s.b))
	for i, t := range s.b {
		buf[i] = byte(m.concretize(t))
	}
	return string(buf)
}

// ---- equality

func (m *M) eqVal(a, b Value) *Term {
	switch x := a.(type) {
	case nil:
		return m.c.B(b == nil)
	case *Term:
		return m.c.Eq(x, b.(*Term))
	case Str:
		return m.strEq(x, b.(Str))
	case Float:
		return m.c.B(x.f == b.(Float).f)
	case Ptr:
		y, ok := b.(Ptr)
		return m.c.B(ok && x == y)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return m.c.fls
		}
		if x.t == nil || y.t == nil {
			return m.c.B(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.c.fls
		}
		if !types.Comparable(x.t) {
			panic(m.tpanicStr("runtime error: comparing uncomparable type " + x.t.String()))
		}
		return m.eqVal(x.v, y.v)
	case *Struct:
		y := b.(*Struct)
		r := m.c.tru
		for i := range x.f {
			r = m.c.And(r, m.eqVal(x.f[i], y.f[i]))
		}
		return r
	case *Array:
		y := b.(*Array)
		r := m.c.tru
		for i := 0; i < x.n; i++ {
			r = m.c.And(r, m.eqVal(m.aget(x, i), m.aget(y, i)))
		}
		return r
	case *Chan:
		y, ok := b.(*Chan)
		return m.c.B(ok && x == y)
	case *MapV:
		y, ok := b.(*MapV)
		return m.c.B(ok && x == y)
	case *Closure:
		y, ok := b.(*Closure)
		return m.c.B(ok && x == y)
	case Slice:
		y, ok := b.(Slice)
		return m.c.B(ok && x.arr == nil && y.arr == nil)
	case RType:
		y, ok := b.(RType)
		return m.c.B(ok && types.Identical(x.t, y.t))
	case *Opaque:
		y, ok := b.(*Opaque)
		return m.c.B(ok && x == y)
	}
	panic(m.unsupported(fmt.Sprintf("eq of %T", a)))
}

// ---- maps

func keyString(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isC() {
			return "i" + strconv.FormatUint(x.k, 16), true
		}
		if x.op == OTrue {
			return "T", true
		}
		if x.op == OFalse {
			return "F", true
		}
		return "", false
	case Str:
		if x.b != nil {
			return "", false
		}
		return "s" + x.s, true
	case Float:
		return fmt.Sprintf("f%v", x.f), true
	case Ptr:
		return fmt.Sprintf("p%p", x), true
	case *Chan:
		return fmt.Sprintf("p%p", x), true
	case *Opaque:
		return fmt.Sprintf("p%p", x), true
	case RType:
		return "t" + x.t.String(), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := keyString(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case *Struct:
		var sb strings.Builder
		for _, f := range x.f {
			k, ok := keyString(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s|", len(k), k)
		}
		return sb.String(), true
	case *Array:
		var sb strings.Builder
		for i := 0; i < x.n; i++ {
			p := i / pageSize
			if x.pages[p] == nil {
				sb.WriteString("0|")
				continue
			}
			k, ok := keyString(x.pages[p][i%pageSize])
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%s|", k)
		}
		return sb.String(), true
	}
	return "", false
}

func (m *M) mapFind(mv *MapV, k Value) *mapEnt {
	if mv == nil {
		return nil
	}
	ks, conc := keyString(k)
	if conc {
		if e := mv.idx[ks]; e != nil {
			return e
		}
		if mv.nsym == 0 {
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.deleted {
			continue
		}
		if conc {
			if _, c2 := keyString(e.k); c2 {
				continue
			}
		}
		if m.decide(m.eqVal(e.k, k)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mv *MapV, k, v Value) {
	if e := m.mapFind(mv, k); e != nil {
		e.v = m.copyVal(v)
		return
	}
	e := &mapEnt{k: m.copyVal(k), v: m.copyVal(v)}
	mv.ents = append(mv.ents, e)
	mv.n++
	if ks, ok := keyString(k); ok {
		mv.idx[ks] = e
	} else {
		mv.nsym++
	}
}

func (m *M) mapDelete(mv *MapV, k Value) {
	e := m.mapFind(mv, k)
	if e == nil {
		return
	}
	e.deleted = true
	mv.n--
	if ks, ok := keyString(e.k); ok {
		delete(mv.idx, ks)
	} else {
		mv.nsym--
	}
	out := mv.ents[:0:0]
	for _, x := range mv.ents {
		if !x.deleted {
			out = append(out, x)
		}
	}
	mv.ents = out
}

func newMap(t *types.Map) *MapV {
	return &MapV{kt: t.Key(), vt: t.Elem(), idx: map[string]*mapEnt{}}
}
