package main

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type native func(fr *Frame, fn *ssa.Function, args []Value) Value
type fallThrough struct{}

const healerPkg = "github.com/childe/healer"

var natives map[string]native

// packages whose functions have no observable effect for the properties (logging)
var noopPkgs = map[string]bool{
	"k8s.io/klog/v2": true, "github.com/go-logr/logr": true, "log": true, "log/slog": true, "log/internal": true,
	"k8s.io/klog/v2/internal/severity": true, "k8s.io/klog/v2/internal/buffer": true,
}

func nZero(fr *Frame, fn *ssa.Function, args []Value) Value { return fr.m.zeroResults(fn.Signature) }

func lookupNative(fn *ssa.Function, key string) native {
	if n, ok := natives[key]; ok {
		return n
	}
	p := pkgOf(fn)
	if noopPkgs[p] {
		if fn.Name() == "init" {
			return nil
		}
		return nZero
	}
	if p == healerPkg && strings.HasPrefix(fn.Name(), "vp") {
		if n, ok := vpNatives[fn.Name()]; ok {
			return n
		}
	}
	return nil
}

func (m *M) kInt(i int) *Term { return m.c.K(uint64(int64(i)), 64) }

func (m *M) namedType(pkg, name string) types.Type {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		panic(m.unsupported("package not loaded: " + pkg))
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(m.unsupported("no type " + pkg + "." + name))
	}
	return o.Type()
}

func (m *M) newErr(g *Gor, msg string) Iface {
	t := m.namedType("errors", "errorString")
	p := new(Value)
	*p = &Struct{f: []Value{Str{s: msg}}}
	return Iface{t: types.NewPointer(t), v: Ptr(p)}
}

func (m *M) globalErr(g *Gor, pkg, name string) Value {
	p := m.prog.ImportedPackage(pkg)
	gl := p.Members[name].(*ssa.Global)
	return *(m.global(g, gl).(Ptr))
}

// callMethod invokes a method by name on an interface value.
func (fr *Frame) callMethod(i Iface, name string, args ...Value) (Value, bool) {
	if i.t == nil {
		return nil, false
	}
	fn := fr.m.methodByName(i.t, name)
	if fn == nil {
		return nil, false
	}
	return fr.m.callFn(fr.g, fn, append([]Value{fr.m.copyVal(i.v)}, args...), nil), true
}

// ---- error unwrapping

func (fr *Frame) errorsIs(err, target Iface) *Term {
	m := fr.m
	if err.t == nil || target.t == nil {
		return m.c.B(err.t == nil && target.t == nil)
	}
	cmp := types.Comparable(target.t)
	var rec func(e Iface) bool
	rec = func(e Iface) bool {
		for {
			if cmp && types.Identical(e.t, target.t) {
				if m.decide(m.eqVal(e, target)) {
					return true
				}
			}
			if f := m.methodByName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
				r := m.callFn(fr.g, f, []Value{m.copyVal(e.v), target}, nil)
				if m.decide(r.(*Term)) {
					return true
				}
			}
			f := m.methodByName(e.t, "Unwrap")
			if f == nil {
				return false
			}
			r := m.callFn(fr.g, f, []Value{m.copyVal(e.v)}, nil)
			switch x := r.(type) {
			case Iface:
				if x.t == nil {
					return false
				}
				e = x
			case Slice:
				for i := 0; i < x.len; i++ {
					c := m.aget(x.arr, x.off+i).(Iface)
					if c.t != nil && rec(c) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
	}
	return m.c.B(rec(err))
}

func (fr *Frame) errorsAs(err Iface, target Iface) *Term {
	m := fr.m
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		panic(m.tpanicStr("errors: target must be a non-nil pointer"))
	}
	et := pt.Elem()
	dst := target.v.(Ptr)
	var rec func(e Iface) bool
	rec = func(e Iface) bool {
		for e.t != nil {
			if it, isI := et.Underlying().(*types.Interface); isI {
				if types.Implements(e.t, it) {
					*dst = e
					return true
				}
			} else if types.Identical(e.t, et) {
				m.store(dst, e.v)
				return true
			}
			f := m.methodByName(e.t, "Unwrap")
			if f == nil {
				return false
			}
			r := m.callFn(fr.g, f, []Value{m.copyVal(e.v)}, nil)
			switch x := r.(type) {
			case Iface:
				e = x
			case Slice:
				for i := 0; i < x.len; i++ {
					if rec(m.aget(x.arr, x.off+i).(Iface)) {
						return true
					}
				}
				return false
			default:
				return false
			}
		}
		return false
	}
	return m.c.B(rec(err))
}

// ---- formatting

// toGo converts a concrete value to a Go value for package fmt.
func (fr *Frame) toGo(t types.Type, v Value, depth int) (any, bool) {
	m := fr.m
	switch x := v.(type) {
	case *Term:
		if x.op == OTrue {
			return true, true
		}
		if x.op == OFalse {
			return false, true
		}
		if !x.isC() {
			return nil, false
		}
		w, sg := intWidth(t)
		if sg {
			s := sx(x.k, w)
			switch w {
			case 8:
				return int8(s), true
			case 16:
				return int16(s), true
			case 32:
				return int32(s), true
			}
			return s, true
		}
		switch w {
		case 8:
			return uint8(x.k), true
		case 16:
			return uint16(x.k), true
		case 32:
			return uint32(x.k), true
		}
		return x.k, true
	case Str:
		if x.b != nil {
			return nil, false
		}
		return x.s, true
	case Float:
		return x.f, true
	case Iface:
		if x.t == nil {
			return nil, true
		}
		return fr.toGo(x.t, x.v, depth)
	case Slice:
		if depth > 3 {
			return nil, false
		}
		if isByteElem(t.Underlying().(*types.Slice).Elem()) {
			buf := make([]byte, x.len)
			for i := range buf {
				b := m.aget(x.arr, x.off+i).(*Term)
				if !b.isC() {
					return nil, false
				}
				buf[i] = byte(b.k)
			}
			return buf, true
		}
		var out []any
		for i := 0; i < x.len; i++ {
			g, ok := fr.toGo(t.Underlying().(*types.Slice).Elem(), m.aget(x.arr, x.off+i), depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, g)
		}
		return out, true
	}
	return nil, false
}

func (fr *Frame) formatArg(sub string, verb byte, a Iface) []*Term {
	m := fr.m
	str := func(s string) []*Term { return m.strBytes(Str{s: s}) }
	if a.t == nil {
		return str(fmt.Sprintf(sub, nil))
	}
	if verb == 'T' {
		return str(a.t.String())
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		for _, mn := range []string{"Error", "String"} {
			if f := m.methodByName(a.t, mn); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
				if p, ok := a.v.(Ptr); ok && p == nil {
					return str("<nil>")
				}
				r := m.callFn(fr.g, f, []Value{m.copyVal(a.v)}, nil)
				if s, ok := r.(Str); ok {
					return m.strBytes(s)
				}
			}
		}
	}
	if s, ok := a.v.(Str); ok && s.b != nil && (verb == 's' || verb == 'v') {
		return s.b
	}
	if s, ok := a.v.(Slice); ok && verb == 's' && s.len > 0 {
		if sl, ok := a.t.Underlying().(*types.Slice); ok && isByteElem(sl.Elem()) {
			return m.sliceBytes(s)
		}
	}
	g, ok := fr.toGo(a.t, a.v, 0)
	if !ok {
		return str("<?>")
	}
	if verb == 'w' {
		sub = strings.Replace(sub, "w", "v", 1)
	}
	return str(fmt.Sprintf(sub, g))
}

func (fr *Frame) sprintf(format Str, args Slice) Str {
	m := fr.m
	if format.b != nil {
		return Str{s: "<?fmt>"}
	}
	f := format.s
	var out []*Term
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, m.c.K(uint64(f[i]), 8))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			out = append(out, m.c.K('%', 8))
			i = j
			continue
		}
		if ai < args.len {
			out = append(out, fr.formatArg(f[i:j+1], f[j], m.aget(args.arr, args.off+ai).(Iface))...)
		} else {
			out = append(out, m.strBytes(Str{s: "%!" + string(f[j]) + "(MISSING)"})...)
		}
		ai++
		i = j
	}
	return mkStr(out)
}

func (fr *Frame) sprint(args Slice, ln bool) Str {
	m := fr.m
	var out []*Term
	for i := 0; i < args.len; i++ {
		if ln && i > 0 {
			out = append(out, m.c.K(' ', 8))
		}
		out = append(out, fr.formatArg("%v", 'v', m.aget(args.arr, args.off+i).(Iface))...)
	}
	if ln {
		out = append(out, m.c.K('\n', 8))
	}
	return mkStr(out)
}

// ---- crc

func (m *M) crcUpdate(crc *Term, tab *Array, p []*Term) *Term {
	c := m.c
	var t [256]uint32
	for i := range t {
		t[i] = uint32(m.aget(tab, i).(*Term).k)
	}
	crc = c.BNot(crc)
	conc := crc.isC()
	for _, b := range p {
		if conc && b.isC() {
			crc = c.K(uint64(t[byte(crc.k)^byte(b.k)])^(crc.k>>8), 32)
			continue
		}
		conc = false
		x := c.BXor(c.Extract(crc, 7, 0), b)
		r := c.LShrK(crc, 8)
		for i := 0; i < 8; i++ {
			bit := c.Eq(c.Extract(x, i, i), c.K(1, 1))
			r = c.BXor(r, c.Ite(bit, c.K(uint64(t[1<<uint(i)]), 32), c.K(0, 32)))
		}
		crc = r
	}
	return c.BNot(crc)
}

func (m *M) crcTable(poly uint32) *Array {
	t := crc32.MakeTable(poly)
	a := newArray(256, types.Typ[types.Uint32])
	for i, v := range t {
		*m.slot(a, i) = m.c.K(uint64(v), 32)
	}
	return a
}

type mutexState struct {
	w       bool
	readers int
}

func (m *M) mutex(p Ptr) *mutexState {
	if p == nil {
		panic(m.nilDeref())
	}
	s, _ := m.sideTab[p].(*mutexState)
	if s == nil {
		s = &mutexState{}
		m.sideTab[p] = s
	}
	return s
}

type wgState struct{ n int64 }
type poolState struct{ vs []Value }
type condState struct{ ws []*bool }

func atomicNatives(out map[string]native) {
	for _, ty := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		out["sync/atomic.Load"+ty.n] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.yield(fr.g)
			return fr.m.load(a[0])
		}
		out["sync/atomic.Store"+ty.n] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.yield(fr.g)
			fr.m.store(fr.m.ptr(a[0]), a[1])
			return nil
		}
		out["sync/atomic.Add"+ty.n] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.yield(fr.g)
			p := fr.m.ptr(a[0])
			v := fr.m.c.Add((*p).(*Term), a[1].(*Term))
			*p = v
			return v
		}
		out["sync/atomic.Swap"+ty.n] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.yield(fr.g)
			p := fr.m.ptr(a[0])
			v := *p
			*p = a[1]
			return v
		}
		out["sync/atomic.CompareAndSwap"+ty.n] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.yield(fr.g)
			p := fr.m.ptr(a[0])
			if fr.m.decide(fr.m.eqVal(*p, a[1])) {
				*p = a[2]
				return fr.m.c.tru
			}
			return fr.m.c.fls
		}
	}
	out["sync/atomic.LoadPointer"] = out["sync/atomic.LoadInt32"]
	out["sync/atomic.StorePointer"] = out["sync/atomic.StoreInt32"]
	out["sync/atomic.SwapPointer"] = out["sync/atomic.SwapInt32"]
	out["sync/atomic.CompareAndSwapPointer"] = out["sync/atomic.CompareAndSwapInt32"]
	val := func(fr *Frame, a Value) *Iface {
		p := fr.m.ptr(a)
		s, _ := fr.m.sideTab[p].(*Iface)
		if s == nil {
			s = &Iface{}
			fr.m.sideTab[p] = s
		}
		return s
	}
	out["(*sync/atomic.Value).Load"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		return *val(fr, a[0])
	}
	out["(*sync/atomic.Value).Store"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		v := a[1].(Iface)
		if v.t == nil {
			panic(fr.m.tpanicStr("sync/atomic: store of nil value into Value"))
		}
		*val(fr, a[0]) = v
		return nil
	}
	out["(*sync/atomic.Value).Swap"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := val(fr, a[0])
		old := *s
		*s = a[1].(Iface)
		return old
	}
	out["(*sync/atomic.Value).CompareAndSwap"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := val(fr, a[0])
		if fr.m.decide(fr.m.eqVal(*s, a[1])) {
			*s = a[2].(Iface)
			return fr.m.c.tru
		}
		return fr.m.c.fls
	}
}

func (m *M) ptr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		panic(m.unsupported(fmt.Sprintf("pointer expected, got %T", v)))
	}
	if p == nil {
		panic(m.nilDeref())
	}
	return p
}

func (m *M) mkTime(ns int64) Value {
	// time.Time{wall: nsec, ext: seconds since year 1, loc: nil}
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	return &Struct{f: []Value{m.c.K(uint64(ns%1e9), 64), m.c.K(uint64(ns/1e9+unixToInternal), 64), Ptr(nil)}}
}

func (m *M) newTimer(d int64, period int64, fire func()) *Timer {
	t := &Timer{when: m.now + d, period: period, active: true, fire: fire}
	m.timers = append(m.timers, t)
	return t
}

func (m *M) tickInto(ch *Chan) func() {
	return func() {
		if ch.canSend() {
			m.doSend(ch, m.mkTime(m.now))
		}
	}
}

func (m *M) structField(p Ptr, t types.Type, name string) *Value {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &(*p).(*Struct).f[i]
		}
	}
	panic(m.unsupported("no field " + name))
}

func initNatives() {
	natives = map[string]native{}
	n := natives
	atomicNatives(n)

	// errors / fmt
	n["errors.Is"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.errorsIs(a[0].(Iface), a[1].(Iface))
	}
	n["errors.As"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.errorsAs(a[0].(Iface), a[1].(Iface))
	}
	n["fmt.Sprintf"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.sprintf(a[0].(Str), a[1].(Slice))
	}
	n["fmt.Sprint"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.sprint(a[0].(Slice), false) }
	n["fmt.Sprintln"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.sprint(a[0].(Slice), true) }
	n["fmt.Errorf"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		f := a[0].(Str)
		args := a[1].(Slice)
		msg := fr.sprintf(f, args)
		// find %w operands
		var wrapped []Iface
		ai := 0
		for i := 0; i < len(f.s); i++ {
			if f.s[i] != '%' {
				continue
			}
			j := i + 1
			for j < len(f.s) && strings.IndexByte("+-# 0123456789.", f.s[j]) >= 0 {
				j++
			}
			if j >= len(f.s) {
				break
			}
			if f.s[j] == '%' {
				i = j
				continue
			}
			if f.s[j] == 'w' && ai < args.len {
				if e := m.aget(args.arr, args.off+ai).(Iface); e.t != nil {
					wrapped = append(wrapped, e)
				}
			}
			ai++
			i = j
		}
		p := new(Value)
		switch len(wrapped) {
		case 0:
			*p = &Struct{f: []Value{msg}}
			return Iface{t: types.NewPointer(m.namedType("errors", "errorString")), v: Ptr(p)}
		case 1:
			*p = &Struct{f: []Value{msg, wrapped[0]}}
			return Iface{t: types.NewPointer(m.namedType("fmt", "wrapError")), v: Ptr(p)}
		}
		et := m.namedType("fmt", "wrapErrors").Underlying().(*types.Struct).Field(1).Type().(*types.Slice).Elem()
		arr := newArray(len(wrapped), et)
		for i, w := range wrapped {
			*m.slot(arr, i) = w
		}
		*p = &Struct{f: []Value{msg, Slice{arr, 0, len(wrapped), len(wrapped)}}}
		return Iface{t: types.NewPointer(m.namedType("fmt", "wrapErrors")), v: Ptr(p)}
	}
	fpr := func(mk func(fr *Frame, a []Value) Str) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			s := mk(fr, a)
			b := m.bytesSlice(m.strBytes(s))
			r, ok := fr.callMethod(a[0].(Iface), "Write", b)
			if !ok {
				return Tuple{m.kInt(0), Iface{}}
			}
			return r
		}
	}
	n["fmt.Fprintf"] = fpr(func(fr *Frame, a []Value) Str { return fr.sprintf(a[1].(Str), a[2].(Slice)) })
	n["fmt.Fprint"] = fpr(func(fr *Frame, a []Value) Str { return fr.sprint(a[1].(Slice), false) })
	n["fmt.Fprintln"] = fpr(func(fr *Frame, a []Value) Str { return fr.sprint(a[1].(Slice), true) })
	for _, k := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		n[k] = nZero
	}
	n["encoding/json.Marshal"] = nZero
	n["encoding/json.MarshalIndent"] = nZero

	// sync
	lock := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		p := m.ptr(a[0])
		s := m.mutex(p)
		m.yield(fr.g)
		m.block(fr.g, "Lock", func() bool { return !s.w && s.readers == 0 })
		s.w = true
		return nil
	}
	unlock := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := fr.m.mutex(fr.m.ptr(a[0]))
		if !s.w {
			panic(fr.m.tpanicStr("fatal error: sync: unlock of unlocked mutex"))
		}
		s.w = false
		fr.m.yield(fr.g)
		return nil
	}
	trylock := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := fr.m.mutex(fr.m.ptr(a[0]))
		if s.w || s.readers > 0 {
			return fr.m.c.fls
		}
		s.w = true
		return fr.m.c.tru
	}
	n["(*sync.Mutex).Lock"], n["(*sync.RWMutex).Lock"] = lock, lock
	n["(*sync.Mutex).Unlock"], n["(*sync.RWMutex).Unlock"] = unlock, unlock
	n["(*sync.Mutex).TryLock"], n["(*sync.RWMutex).TryLock"] = trylock, trylock
	n["(*sync.RWMutex).RLock"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := m.mutex(m.ptr(a[0]))
		m.yield(fr.g)
		m.block(fr.g, "RLock", func() bool { return !s.w })
		s.readers++
		return nil
	}
	n["(*sync.RWMutex).RUnlock"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := fr.m.mutex(fr.m.ptr(a[0]))
		if s.readers == 0 {
			panic(fr.m.tpanicStr("fatal error: sync: RUnlock of unlocked RWMutex"))
		}
		s.readers--
		fr.m.yield(fr.g)
		return nil
	}
	wg := func(fr *Frame, a Value) *wgState {
		p := fr.m.ptr(a)
		s, _ := fr.m.sideTab[p].(*wgState)
		if s == nil {
			s = &wgState{}
			fr.m.sideTab[p] = s
		}
		return s
	}
	n["(*sync.WaitGroup).Add"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := wg(fr, a[0])
		s.n += int64(fr.m.concretize(a[1].(*Term)))
		if s.n < 0 {
			panic(fr.m.tpanicStr("sync: negative WaitGroup counter"))
		}
		return nil
	}
	n["(*sync.WaitGroup).Done"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := wg(fr, a[0])
		s.n--
		if s.n < 0 {
			panic(fr.m.tpanicStr("sync: negative WaitGroup counter"))
		}
		fr.m.yield(fr.g)
		return nil
	}
	n["(*sync.WaitGroup).Wait"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := wg(fr, a[0])
		fr.m.block(fr.g, "WaitGroup.Wait", func() bool { return s.n == 0 })
		return nil
	}
	n["(*sync.Pool).Get"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		p := fr.m.ptr(a[0])
		fr.m.yield(fr.g)
		// what was put last comes back first
		if s, _ := fr.m.sideTab[p].(*poolState); s != nil && len(s.vs) > 0 {
			v := s.vs[len(s.vs)-1]
			s.vs = s.vs[:len(s.vs)-1]
			return v
		}
		t := fr.m.namedType("sync", "Pool")
		f := *fr.m.structField(p, t, "New")
		c, _ := f.(*Closure)
		if c == nil {
			return Iface{}
		}
		return fr.callValue(nil, c, nil)
	}
	n["(*sync.Pool).Put"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		p := fr.m.ptr(a[0])
		if a[1].(Iface).t == nil {
			return nil
		}
		s, _ := fr.m.sideTab[p].(*poolState)
		if s == nil {
			s = &poolState{}
			fr.m.sideTab[p] = s
		}
		s.vs = append(s.vs, a[1])
		fr.m.yield(fr.g)
		return nil
	}
	n["(*sync.RWMutex).TryRLock"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := fr.m.mutex(fr.m.ptr(a[0]))
		if s.w {
			return fr.m.c.fls
		}
		s.readers++
		return fr.m.c.tru
	}
	cond := func(fr *Frame, a Value) *condState {
		p := fr.m.ptr(a)
		s, _ := fr.m.sideTab[p].(*condState)
		if s == nil {
			s = &condState{}
			fr.m.sideTab[p] = s
		}
		return s
	}
	n["(*sync.Cond).Wait"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := cond(fr, a[0])
		l := *m.structField(m.ptr(a[0]), m.namedType("sync", "Cond"), "L")
		w := new(bool)
		s.ws = append(s.ws, w)
		fr.callMethod(l.(Iface), "Unlock")
		m.block(fr.g, "Cond.Wait", func() bool { return *w })
		fr.callMethod(l.(Iface), "Lock")
		return nil
	}
	n["(*sync.Cond).Signal"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		if s := cond(fr, a[0]); len(s.ws) > 0 {
			*s.ws[0] = true
			s.ws = s.ws[1:]
		}
		return nil
	}
	n["(*sync.Cond).Broadcast"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		s := cond(fr, a[0])
		for _, w := range s.ws {
			*w = true
		}
		s.ws = nil
		return nil
	}
	smap := func(fr *Frame, a Value) *MapV {
		p := fr.m.ptr(a)
		s, _ := fr.m.sideTab[p].(*MapV)
		if s == nil {
			e := types.NewInterfaceType(nil, nil)
			s = newMap(types.NewMap(e, e))
			fr.m.sideTab[p] = s
		}
		return s
	}
	n["(*sync.Map).Load"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		if e := fr.m.mapFind(smap(fr, a[0]), a[1]); e != nil {
			return Tuple{e.v, fr.m.c.tru}
		}
		return Tuple{Iface{}, fr.m.c.fls}
	}
	n["(*sync.Map).Store"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		fr.m.mapSet(smap(fr, a[0]), a[1], a[2])
		return nil
	}
	n["(*sync.Map).LoadOrStore"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		mm := smap(fr, a[0])
		if e := fr.m.mapFind(mm, a[1]); e != nil {
			return Tuple{e.v, fr.m.c.tru}
		}
		fr.m.mapSet(mm, a[1], a[2])
		return Tuple{a[2], fr.m.c.fls}
	}
	n["(*sync.Map).Delete"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		fr.m.mapDelete(smap(fr, a[0]), a[1])
		return nil
	}
	n["(*sync.Map).LoadAndDelete"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		mv := smap(fr, a[0])
		if e := fr.m.mapFind(mv, a[1]); e != nil {
			v := e.v
			fr.m.mapDelete(mv, a[1])
			return Tuple{v, fr.m.c.tru}
		}
		return Tuple{Iface{}, fr.m.c.fls}
	}
	n["(*sync.Map).Swap"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		mv := smap(fr, a[0])
		var old Value = Iface{}
		ok := fr.m.c.fls
		if e := fr.m.mapFind(mv, a[1]); e != nil {
			old, ok = e.v, fr.m.c.tru
		}
		fr.m.mapSet(mv, a[1], a[2])
		return Tuple{old, ok}
	}
	n["(*sync.Map).CompareAndSwap"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		mv := smap(fr, a[0])
		if e := fr.m.mapFind(mv, a[1]); e != nil && fr.m.decide(fr.m.eqVal(e.v, a[2])) {
			e.v = a[3]
			return fr.m.c.tru
		}
		return fr.m.c.fls
	}
	n["(*sync.Map).CompareAndDelete"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		mv := smap(fr, a[0])
		if e := fr.m.mapFind(mv, a[1]); e != nil && fr.m.decide(fr.m.eqVal(e.v, a[2])) {
			fr.m.mapDelete(mv, a[1])
			return fr.m.c.tru
		}
		return fr.m.c.fls
	}
	n["(*sync.Map).Clear"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		delete(fr.m.sideTab, fr.m.ptr(a[0]))
		return nil
	}
	n["maps.clone"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		mv, _ := i.v.(*MapV)
		if mv == nil {
			return i
		}
		r := newMap(types.NewMap(mv.kt, mv.vt))
		for _, e := range mv.ents {
			fr.m.mapSet(r, e.k, e.v)
		}
		return Iface{i.t, r}
	}
	n["slices.overlaps"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len > 0 && y.len > 0 && x.arr == y.arr && x.off < y.off+y.len && y.off < x.off+x.len {
			return fr.m.c.tru
		}
		return fr.m.c.fls
	}
	n["(*sync.Map).Range"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		for _, e := range append([]*mapEnt{}, smap(fr, a[0]).ents...) {
			if e.deleted {
				continue
			}
			if !fr.m.decide(fr.callValue(nil, a[1], []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	}

	// time
	n["time.Now"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.mkTime(fr.m.now) }
	n["time.now"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{fr.m.kInt(int(fr.m.now / 1e9)), fr.m.c.K(uint64(fr.m.now%1e9), 32), fr.m.kInt(int(fr.m.now))}
	}
	n["time.runtimeNano"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.kInt(int(fr.m.now)) }
	timeNatives(n)
	n["time.Sleep"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if m.initing > 0 {
			return nil
		}
		dur := symDur(fr, a[0])
		if dur <= 0 {
			m.gosched(fr.g, "sleep 0")
			return nil
		}
		fired := false
		m.newTimer(dur, 0, func() { fired = true })
		m.block(fr.g, "Sleep", func() bool { return fired })
		return nil
	}
	dur := symDur
	n["time.After"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		ch := &Chan{cap: 1, zero: fr.m.zero(fr.m.namedType("time", "Time"))}
		fr.m.newTimer(dur(fr, a[0]), 0, fr.m.tickInto(ch))
		return ch
	}
	n["time.Tick"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		ch := &Chan{cap: 1, zero: fr.m.zero(fr.m.namedType("time", "Time"))}
		d := dur(fr, a[0])
		fr.m.newTimer(d, d, fr.m.tickInto(ch))
		return ch
	}
	newT := func(tn string, periodic bool) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			d := dur(fr, a[0])
			if periodic && d <= 0 {
				panic(m.tpanicStr("non-positive interval for NewTicker"))
			}
			t := m.namedType("time", tn)
			p := new(Value)
			*p = m.zero(t)
			ch := &Chan{cap: 1, zero: m.zero(m.namedType("time", "Time"))}
			*m.structField(p, t, "C") = ch
			per := int64(0)
			if periodic {
				per = d
			}
			m.sideTab[p] = m.newTimer(d, per, m.tickInto(ch))
			return Ptr(p)
		}
	}
	n["time.NewTicker"] = newT("Ticker", true)
	n["time.NewTimer"] = newT("Timer", false)
	stop := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, _ := fr.m.sideTab[fr.m.ptr(a[0])].(*Timer); t != nil {
			was := t.active
			t.active = false
			if fn.Signature.Results().Len() == 1 {
				return fr.m.c.B(was)
			}
		}
		return fr.m.zeroResults(fn.Signature)
	}
	n["(*time.Ticker).Stop"], n["(*time.Timer).Stop"] = stop, stop
	reset := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if t, _ := fr.m.sideTab[fr.m.ptr(a[0])].(*Timer); t != nil {
			was := t.active
			t.active = true
			t.when = fr.m.now + dur(fr, a[1])
			if t.period > 0 {
				t.period = dur(fr, a[1])
			}
			if fn.Signature.Results().Len() == 1 {
				return fr.m.c.B(was)
			}
		}
		return fr.m.zeroResults(fn.Signature)
	}
	n["(*time.Ticker).Reset"], n["(*time.Timer).Reset"] = reset, reset
	n["time.AfterFunc"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		t := m.namedType("time", "Timer")
		p := new(Value)
		*p = m.zero(t)
		cl := a[1].(*Closure)
		m.sideTab[p] = m.newTimer(dur(fr, a[0]), 0, func() {
			g := m.newGor("AfterFunc")
			g.start(func() { m.callFn(g, cl.fn, nil, cl.env) })
		})
		return Ptr(p)
	}
	n["(time.Time).String"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return Str{s: "<time>"} }
	n["(time.Time).Format"] = n["(time.Time).String"]
	n["runtime.Gosched"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.gosched(fr.g, "Gosched")
		return nil
	}
	n["runtime.GC"] = nZero
	n["runtime.KeepAlive"] = nZero
	n["runtime.SetFinalizer"] = nZero
	n["runtime.NumGoroutine"] = nZero
	n["runtime/debug.Stack"] = nZero
	n["runtime/debug.PrintStack"] = nZero
	n["os.Hostname"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return Tuple{Str{s: "host"}, Iface{}} }
	n["os.Getpid"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.kInt(4242) }
	n["os.Exit"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(pathAbort{abStop, "os.Exit"})
	}

	// abi / unsafe helpers
	n["internal/abi.NoEscape"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }
	n["internal/abi.Escape"] = n["internal/abi.NoEscape"]
	n["strings.noescape"] = n["internal/abi.NoEscape"]
	n["internal/race.Acquire"] = nZero
	n["internal/race.Release"] = nZero
	n["internal/race.ReleaseMerge"] = nZero
	n["internal/race.Enable"] = nZero
	n["internal/race.Disable"] = nZero
	n["internal/godebug.New"] = nZero
	n["(*internal/godebug.Setting).Value"] = nZero
	n["(*internal/godebug.Setting).IncNonDefault"] = nZero

	// bytealg
	n["internal/bytealg.MakeNoZero"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		k := fr.m.sizeOf(a[0], types.Typ[types.Int], "makeslice: len out of range")
		return Slice{newArray(k, types.Typ[types.Uint8]), 0, k, k}
	}
	bs := func(fr *Frame, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return fr.m.strBytes(x)
		case Slice:
			if x.len == 0 {
				return nil
			}
			return fr.m.sliceBytes(x)
		}
		panic(fr.m.unsupported("bytes"))
	}
	indexByte := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		for i, b := range bs(fr, a[0]) {
			if fr.m.decide(fr.m.c.Eq(b, a[1].(*Term))) {
				return fr.m.kInt(i)
			}
		}
		return fr.m.kInt(-1)
	}
	n["internal/bytealg.IndexByte"], n["internal/bytealg.IndexByteString"] = indexByte, indexByte
	n["bytes.IndexByte"], n["strings.IndexByte"] = indexByte, indexByte
	lastIndexByte := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bs(fr, a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if fr.m.decide(fr.m.c.Eq(b[i], a[1].(*Term))) {
				return fr.m.kInt(i)
			}
		}
		return fr.m.kInt(-1)
	}
	n["internal/bytealg.LastIndexByte"], n["internal/bytealg.LastIndexByteString"] = lastIndexByte, lastIndexByte
	count := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		k := 0
		for _, b := range bs(fr, a[0]) {
			if fr.m.decide(fr.m.c.Eq(b, a[1].(*Term))) {
				k++
			}
		}
		return fr.m.kInt(k)
	}
	n["internal/bytealg.Count"], n["internal/bytealg.CountString"] = count, count
	index := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := bs(fr, a[0]), bs(fr, a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			e := fr.m.c.tru
			for j := range y {
				e = fr.m.c.And(e, fr.m.c.Eq(x[i+j], y[j]))
			}
			if fr.m.decide(e) {
				return fr.m.kInt(i)
			}
		}
		return fr.m.kInt(-1)
	}
	for _, k := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index"} {
		n[k] = index
	}
	compare := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		x, y := mkStr(bs(fr, a[0])), mkStr(bs(fr, a[1]))
		return m.c.Ite(m.strEq(x, y), m.kInt(0), m.c.Ite(m.strLess(x, y), m.kInt(-1), m.kInt(1)))
	}
	n["internal/bytealg.Compare"], n["bytes.Compare"], n["strings.Compare"], n["internal/bytealg.CompareString"] = compare, compare, compare, compare
	equal := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.strEq(mkStr(bs(fr, a[0])), mkStr(bs(fr, a[1])))
	}
	n["internal/bytealg.Equal"], n["bytes.Equal"] = equal, equal

	// hashes
	mktab := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = fr.m.crcTable(uint32(fr.m.concretize(a[0].(*Term))))
		return Ptr(p)
	}
	n["hash/crc32.MakeTable"], n["hash/crc32.simpleMakeTable"] = mktab, mktab
	crcTabOf := func(fr *Frame, v Value) *Array {
		p := fr.m.ptr(v)
		return (*p).(*Array)
	}
	n["hash/crc32.Checksum"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.crcUpdate(fr.m.c.K(0, 32), crcTabOf(fr, a[1]), bs(fr, a[0]))
	}
	n["hash/crc32.ChecksumIEEE"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.crcUpdate(fr.m.c.K(0, 32), fr.m.crcTable(crc32.IEEE), bs(fr, a[0]))
	}
	n["hash/crc32.Update"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.crcUpdate(a[0].(*Term), crcTabOf(fr, a[1]), bs(fr, a[2]))
	}
	n["hash/crc32.update"] = n["hash/crc32.Update"]
	n["hash/crc32.ieeeInit"] = nZero

	// math
	n["math.Float64bits"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.c.K(math.Float64bits(a[0].(Float).f), 64)
	}
	n["math.Float64frombits"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Float{math.Float64frombits(fr.m.concretize(a[0].(*Term)))}
	}
	n["math.Float32bits"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.c.K(uint64(math.Float32bits(float32(a[0].(Float).f))), 32)
	}
	for k, f := range map[string]func(float64) float64{"math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs, "math.Trunc": math.Trunc, "math.Round": math.Round} {
		n[k] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return Float{f(a[0].(Float).f)} }
	}

	for k, f := range map[string]func(a, b float64) float64{"math.Min": math.Min, "math.Max": math.Max, "math.Pow": math.Pow, "math.Mod": math.Mod} {
		n[k] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return Float{f(a[0].(Float).f, a[1].(Float).f)} }
	}
	for k, f := range map[string]func(float64) float64{"math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Exp": math.Exp} {
		n[k] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return Float{f(a[0].(Float).f)} }
	}

	// randomness: an arbitrary value in the documented range
	randn := func(w int) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			lim := a[len(a)-1].(*Term)
			if m.decide(m.c.Sle(lim, m.c.K(0, w))) {
				panic(m.tpanicStr("invalid argument to " + fn.Name()))
			}
			v := m.newVar("rand", w)
			m.assume(m.c.Ult(v, lim))
			return v
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2.", "(*math/rand/v2.Rand)."} {
		n[p+"Int31n"], n[p+"Int32N"] = randn(32), randn(32)
		n[p+"Intn"], n[p+"IntN"] = randn(64), randn(64)
		n[p+"Int63n"], n[p+"Int64N"] = randn(64), randn(64)
		n[p+"Int"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			v := fr.m.newVar("rand", 64)
			fr.m.assume(fr.m.c.Sle(fr.m.kInt(0), v))
			return v
		}
		n[p+"Int31"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
			v := fr.m.newVar("rand", 32)
			fr.m.assume(fr.m.c.Sle(fr.m.c.K(0, 32), v))
			return v
		}
		n[p+"Uint32"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.newVar("rand", 32) }
		n[p+"Seed"] = nZero
	}
	n["math/rand.NewSource"] = nZero
	n["math/rand.New"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = fr.m.zero(fr.m.namedType("math/rand", "Rand"))
		return Ptr(p)
	}

	// encoding/binary on named scalar types: same bytes as their underlying type,
	// which the package handles without reflection
	plain := func(t types.Type) (types.Type, bool) {
		if b, ok := t.Underlying().(*types.Basic); ok && t != types.Type(b) {
			return b, true
		}
		return t, false
	}
	binData := func(at int) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			d := a[at].(Iface)
			switch t := d.t.(type) {
			case *types.Pointer:
				if e, ok := plain(t.Elem()); ok {
					a[at] = Iface{t: types.NewPointer(e), v: d.v}
				}
			case *types.Slice:
				if e, ok := plain(t.Elem()); ok {
					a[at] = Iface{t: types.NewSlice(e), v: d.v}
				}
			case nil:
			default:
				if e, ok := plain(t); ok {
					a[at] = Iface{t: e, v: d.v}
				}
			}
			return fallThrough{}
		}
	}
	n["encoding/binary.Write"] = binData(2)
	n["encoding/binary.Read"] = binData(2)
	n["encoding/binary.Size"] = binData(0)
	n["encoding/binary.Append"] = binData(2)
	n["encoding/binary.Encode"] = binData(2)
	n["encoding/binary.Decode"] = binData(2)

	// sort.Slice: insertion sort (what pdqsort does for n <= 12)
	sortSlice := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := a[0].(Iface).v.(Slice)
		less := a[1]
		if s.len > 200 && fn.Name() == "Slice" {
			panic(m.unsupported("sort.Slice of more than 200 elements"))
		}
		for i := 1; i < s.len; i++ {
			for j := i; j > 0; j-- {
				r := fr.callValue(nil, less, []Value{m.kInt(j), m.kInt(j - 1)})
				if !m.decide(r.(*Term)) {
					break
				}
				x, y := m.slot(s.arr, s.off+j), m.slot(s.arr, s.off+j-1)
				vx, vy := m.copyVal(*x), m.copyVal(*y)
				m.store(x, vy)
				m.store(y, vx)
			}
		}
		return nil
	}
	n["sort.Slice"], n["sort.SliceStable"] = sortSlice, sortSlice
	n["sort.SliceIsSorted"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := s.len - 1; i > 0; i-- {
			if fr.m.decide(fr.callValue(nil, a[1], []Value{fr.m.kInt(i), fr.m.kInt(i - 1)}).(*Term)) {
				return fr.m.c.fls
			}
		}
		return fr.m.c.tru
	}

	reflectNatives(n)
	compressNatives(n)
	netNatives(n)
	mapstructNatives(n)
	cliNatives(n)
	clone := func(fr *Frame, fn *ssa.Function, a []Value) Value { return a[0] }
	n["strings.Clone"], n["internal/stringslite.Clone"] = clone, clone
	n["strings.ToUpper"] = caseNative(strings.ToUpper, 'a', -32)
	n["strings.ToLower"] = caseNative(strings.ToLower, 'A', 32)
}

// caseNative maps ASCII strings byte by byte without forking; others are made concrete.
func caseNative(f func(string) string, from byte, delta int) native {
	return func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if s, ok := m.concreteStr(a[0]); ok {
			return Str{s: f(s)}
		}
		bs := m.strBytes(a[0].(Str))
		ascii := m.c.tru
		for _, b := range bs {
			ascii = m.c.And(ascii, m.c.Ult(b, m.c.K(0x80, 8)))
		}
		if !m.decide(ascii) {
			return Str{s: f(m.concretizeStr(a[0].(Str)))}
		}
		out := make([]*Term, len(bs))
		for i, b := range bs {
			in := m.c.And(m.c.Ule(m.c.K(uint64(from), 8), b), m.c.Ult(b, m.c.K(uint64(from)+26, 8)))
			out[i] = m.c.Ite(in, m.c.Add(b, m.c.K(uint64(uint8(int8(delta))), 8)), b)
		}
		return mkStr(out)
	}
}

// ---- redirections to functions of the harness (environment models written in Go)

func (m *M) harnessFn(name string) *ssa.Function {
	p := m.prog.ImportedPackage(healerPkg)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func redirect(target string, drop int, keep int) native {
	return func(fr *Frame, fn *ssa.Function, a []Value) Value {
		t := fr.m.harnessFn(target)
		if t == nil {
			panic(fr.m.unsupported(fn.String() + " without model " + target))
		}
		return fr.m.callFn(fr.g, t, a[drop:drop+keep], nil)
	}
}

func netNatives(n map[string]native) {
	dialer := func(skip int) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			t := fr.m.harnessFn("vpModelDialer")
			if t == nil {
				panic(fr.m.unsupported(fn.String() + " without model"))
			}
			st := fr.m.namedType("net", "Dialer").Underlying().(*types.Struct)
			args := append([]Value{}, a[skip:skip+2]...)
			for _, f := range []string{"Timeout", "KeepAlive"} {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == f {
						args = append(args, (*a[0].(Ptr)).(*Struct).f[i])
					}
				}
			}
			return fr.m.callFn(fr.g, t, args, nil)
		}
	}
	n["(*net.Dialer).Dial"] = dialer(1)
	n["(*net.Dialer).DialContext"] = dialer(2)
	n["net.Dial"] = redirect("vpModelDial", 0, 2)
	n["net.DialTimeout"] = redirect("vpModelDial", 0, 2)
	n["crypto/tls.DialWithDialer"] = redirect("vpModelTLSDial", 1, 3)
	n["crypto/tls.LoadX509KeyPair"] = redirect("vpModelKeyPair", 0, 2)
	n["os.ReadFile"] = redirect("vpModelReadFile", 0, 1)
	n["(*crypto/x509.CertPool).AppendCertsFromPEM"] = redirect("vpModelCA", 0, 2)
}

// ---- reflection (the part healer uses)

func (m *M) rtypeIface(t types.Type) Iface {
	return Iface{t: types.NewPointer(m.namedType("reflect", "rtype")), v: RType{t}}
}

func (m *M) structFieldVal(st *types.Struct, i int) Value {
	t := m.namedType("reflect", "StructField")
	v := m.zero(t).(*Struct)
	us := t.Underlying().(*types.Struct)
	for k := 0; k < us.NumFields(); k++ {
		switch us.Field(k).Name() {
		case "Name":
			v.f[k] = Str{s: st.Field(i).Name()}
		case "PkgPath":
			if !st.Field(i).Exported() {
				v.f[k] = Str{s: st.Field(i).Pkg().Path()}
			}
		case "Tag":
			v.f[k] = Str{s: st.Tag(i)}
		case "Type":
			v.f[k] = m.rtypeIface(st.Field(i).Type())
		case "Anonymous":
			v.f[k] = m.c.B(st.Field(i).Embedded())
		}
	}
	return v
}

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func reflectNatives(n map[string]native) {
	n["reflect.TypeOf"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return fr.m.rtypeIface(i.t)
	}
	n["internal/reflectlite.TypeOf"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{fr.m.namedType("internal/reflectlite", "rtype"), RType{i.t}}
	}
	n["(internal/reflectlite.rtype).Comparable"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if types.Comparable(a[0].(RType).t) {
			return fr.m.c.tru
		}
		return fr.m.c.fls
	}
	n["(internal/reflectlite.rtype).String"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Str{s: types.TypeString(a[0].(RType).t, func(p *types.Package) string { return p.Name() })}
	}
	n["reflect.ValueOf"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return &RValue{t: i.t, v: i.v}
	}
	n["reflect.DeepEqual"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.deepEq(a[0], a[1], false, 0)
	}
	st := func(fr *Frame, t types.Type) *types.Struct {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(fr.m.tpanicStr("reflect: call of NumField/Field on non-struct type " + t.String()))
		}
		return s
	}
	rt := func(v Value) types.Type { return v.(RType).t }
	n["(*reflect.rtype).NumField"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.kInt(st(fr, rt(a[0])).NumFields())
	}
	n["(*reflect.rtype).Field"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := st(fr, rt(a[0]))
		i := int(fr.m.concretize(a[1].(*Term)))
		return fr.m.structFieldVal(s, i)
	}
	n["(*reflect.rtype).FieldByName"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := st(fr, rt(a[0]))
		nm, _ := fr.m.concreteStr(a[1])
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm {
				return Tuple{fr.m.structFieldVal(s, i), fr.m.c.tru}
			}
		}
		return Tuple{fr.m.zero(fr.m.namedType("reflect", "StructField")), fr.m.c.fls}
	}
	n["(*reflect.rtype).Size"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.c.K(uint64(types.SizesFor("gc", "amd64").Sizeof(rt(a[0]))), 64)
	}
	n["(*reflect.rtype).Kind"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.kInt(reflectKind(rt(a[0])))
	}
	n["(*reflect.rtype).Name"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if nt, ok := rt(a[0]).(*types.Named); ok {
			return Str{s: nt.Obj().Name()}
		}
		return Str{s: rt(a[0]).String()}
	}
	n["(*reflect.rtype).String"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Str{s: types.TypeString(rt(a[0]), func(p *types.Package) string { return p.Name() })}
	}
	n["(*reflect.rtype).Elem"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		switch u := rt(a[0]).Underlying().(type) {
		case *types.Pointer:
			return fr.m.rtypeIface(u.Elem())
		case *types.Slice:
			return fr.m.rtypeIface(u.Elem())
		case *types.Array:
			return fr.m.rtypeIface(u.Elem())
		case *types.Map:
			return fr.m.rtypeIface(u.Elem())
		}
		panic(fr.m.tpanicStr("reflect: Elem of invalid type"))
	}
	rv := func(v Value) *RValue { return v.(*RValue) }
	n["(reflect.Value).NumField"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.kInt(st(fr, rv(a[0]).t).NumFields())
	}
	n["(reflect.Value).Field"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x := rv(a[0])
		s := st(fr, x.t)
		i := int(fr.m.concretize(a[1].(*Term)))
		r := &RValue{t: s.Field(i).Type(), v: x.v.(*Struct).f[i]}
		if x.addr != nil {
			r.addr = &x.v.(*Struct).f[i]
		}
		return r
	}
	n["(reflect.Value).Type"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.rtypeIface(rv(a[0]).t) }
	n["(reflect.Value).Kind"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x := rv(a[0])
		if x.t == nil {
			return fr.m.kInt(0)
		}
		return fr.m.kInt(reflectKind(x.t))
	}
	n["(reflect.Value).IsNil"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).v.(type) {
		case Ptr:
			return fr.m.c.B(x == nil)
		case *MapV:
			return fr.m.c.B(x == nil)
		case Slice:
			return fr.m.c.B(x.arr == nil)
		case Iface:
			return fr.m.c.B(x.t == nil)
		case *Closure:
			return fr.m.c.B(x == nil)
		case *Chan:
			return fr.m.c.B(x == nil)
		}
		panic(fr.m.unsupported("reflect IsNil"))
	}
	n["(reflect.Value).Len"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).v.(type) {
		case Slice:
			return fr.m.kInt(x.len)
		case Str:
			return fr.m.kInt(x.Len())
		case *MapV:
			if x == nil {
				return fr.m.kInt(0)
			}
			return fr.m.kInt(x.n)
		}
		panic(fr.m.unsupported("reflect Len"))
	}
	n["(reflect.Value).Interface"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x := rv(a[0])
		if i, ok := x.v.(Iface); ok {
			return i
		}
		return Iface{t: x.t, v: x.v}
	}
	n["(reflect.Value).Elem"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x := rv(a[0])
		switch v := x.v.(type) {
		case Ptr:
			return &RValue{t: x.t.Underlying().(*types.Pointer).Elem(), v: *v, addr: v}
		case Iface:
			return &RValue{t: v.t, v: v.v}
		}
		panic(fr.m.unsupported("reflect Elem"))
	}
	n["(reflect.Value).Int"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.toInt64(rv(a[0]).v.(*Term), rv(a[0]).t)
	}
	n["(reflect.Value).Uint"] = n["(reflect.Value).Int"]
	n["(reflect.Value).Bool"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return rv(a[0]).v }
	n["(reflect.Value).Float"] = n["(reflect.Value).Bool"]
	n["(reflect.Value).String"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return rv(a[0]).v }
	n["(reflect.Value).IsValid"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.B(rv(a[0]).t != nil) }
	canSet := func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.B(rv(a[0]).addr != nil) }
	n["(reflect.Value).CanSet"], n["(reflect.Value).CanAddr"] = canSet, canSet
	n["(reflect.Value).CanInterface"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.tru }
	n["(reflect.Value).Index"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		x := rv(a[0])
		i := int(fr.m.concretize(a[1].(*Term)))
		switch v := x.v.(type) {
		case Slice:
			if i >= 0 && i < v.len {
				p := fr.m.slot(v.arr, v.off+i)
				return &RValue{t: x.t.Underlying().(*types.Slice).Elem(), v: *p, addr: p}
			}
		case *Array:
			if i >= 0 && i < v.n {
				p := fr.m.slot(v, i)
				r := &RValue{t: x.t.Underlying().(*types.Array).Elem(), v: *p}
				if x.addr != nil {
					r.addr = p
				}
				return r
			}
		default:
			panic(fr.m.unsupported("reflect.Value.Index on " + x.t.String()))
		}
		panic(fr.m.tpanicStr("reflect: slice index out of range"))
	}
	set := func(conv func(fr *Frame, x *RValue, v Value) Value) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			x := rv(a[0])
			if x.addr == nil {
				panic(fr.m.tpanicStr("reflect: using unaddressable value"))
			}
			v := fr.m.copyVal(conv(fr, x, a[1]))
			*x.addr = v
			x.v = v
			return nil
		}
	}
	num := set(func(fr *Frame, x *RValue, v Value) Value {
		w := 64
		if b, ok := x.t.Underlying().(*types.Basic); ok {
			w = int(types.SizesFor("gc", "amd64").Sizeof(b)) * 8
		}
		t := v.(*Term)
		if w < 64 {
			t = fr.m.c.Extract(t, w-1, 0)
		}
		return t
	})
	n["(reflect.Value).SetInt"], n["(reflect.Value).SetUint"] = num, num
	same := set(func(fr *Frame, x *RValue, v Value) Value { return v })
	n["(reflect.Value).SetBool"], n["(reflect.Value).SetString"], n["(reflect.Value).SetBytes"] = same, same, same
	n["(reflect.Value).Set"] = set(func(fr *Frame, x *RValue, v Value) Value {
		if _, ok := x.t.Underlying().(*types.Interface); ok {
			if _, ok := v.(*RValue).t.Underlying().(*types.Interface); !ok {
				return Iface{v.(*RValue).t, v.(*RValue).v}
			}
		}
		return v.(*RValue).v
	})
}

// deepEq builds the term "a and b are deeply equal"; loose treats nil and empty containers alike.
func (m *M) deepEq(a, b Value, loose bool, depth int) *Term {
	c := m.c
	if depth > 60 {
		panic(m.unsupported("deepEq depth"))
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return c.fls
		}
		if x.t == nil || y.t == nil {
			return c.B(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.fls
		}
		return m.deepEq(x.v, y.v, loose, depth+1)
	case Slice:
		y := b.(Slice)
		if !loose && (x.arr == nil) != (y.arr == nil) {
			return c.fls
		}
		if x.len != y.len {
			return c.fls
		}
		r := c.tru
		for i := 0; i < x.len && r.op != OFalse; i++ {
			r = c.And(r, m.deepEq(m.aget(x.arr, x.off+i), m.aget(y.arr, y.off+i), loose, depth+1))
		}
		return r
	case *Array:
		y := b.(*Array)
		r := c.tru
		for i := 0; i < x.n && r.op != OFalse; i++ {
			r = c.And(r, m.deepEq(m.aget(x, i), m.aget(y, i), loose, depth+1))
		}
		return r
	case *Struct:
		y := b.(*Struct)
		r := c.tru
		for i := range x.f {
			r = c.And(r, m.deepEq(x.f[i], y.f[i], loose, depth+1))
		}
		return r
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return c.fls
		}
		if x == y {
			return c.tru
		}
		if x == nil || y == nil {
			return c.fls
		}
		return m.deepEq(*x, *y, loose, depth+1)
	case *MapV:
		y := b.(*MapV)
		nx, ny := 0, 0
		if x != nil {
			nx = x.n
		}
		if y != nil {
			ny = y.n
		}
		if !loose && (x == nil) != (y == nil) {
			return c.fls
		}
		if nx != ny {
			return c.fls
		}
		r := c.tru
		if nx > 0 {
			for _, e := range x.ents {
				o := m.mapFind(y, e.k)
				if o == nil {
					return c.fls
				}
				r = c.And(r, m.deepEq(e.v, o.v, loose, depth+1))
			}
		}
		return r
	}
	return m.eqVal(a, b)
}
