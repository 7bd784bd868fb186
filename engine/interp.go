package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type fnInfo struct {
	idx  map[ssa.Value]int
	n    int
	key  string
	nat  native
	pure bool
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	next *deferred
}

type Frame struct {
	m         *M
	g         *Gor
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []*deferred
	result    Value
	panicking bool
	panicV    tpanic
	caller    *Frame
	curInstr  ssa.Instruction
	depth     int
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	fi := w.fnInfo[fn]
	if fi != nil {
		return fi
	}
	fi = &fnInfo{idx: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = fi.n
				fi.n++
			}
		}
	}
	for i, p := range fn.FreeVars {
		fi.idx[p] = -1 - i
	}
	fi.key = fnKey(fn)
	fi.nat = lookupNative(fn, fi.key)
	w.fnInfo[fn] = fi
	return fi
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func pkgOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if p := fn.Parent(); p != nil {
		return pkgOf(p)
	}
	return ""
}

// callFn runs fn with args on goroutine g and returns its result.
func (m *M) callFn(g *Gor, fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.w.info(fn)
	var caller *Frame
	if len(g.stack) > 0 {
		caller = g.stack[len(g.stack)-1]
	}
	if fi.nat != nil {
		fr := caller
		if fr == nil {
			fr = &Frame{m: m, g: g}
		}
		m.stubs[fi.key]++
		r := fi.nat(fr, fn, args)
		if _, fall := r.(fallThrough); !fall {
			return r
		}
		m.stubs[fi.key]--
		if m.stubs[fi.key] == 0 {
			delete(m.stubs, fi.key)
		}
	}
	if fn.Blocks == nil {
		if m.initing > 0 {
			return m.zeroResults(fn.Signature)
		}
		panic(m.unsupported("no body: " + fn.String()))
	}
	if !m.fnSeen[fn] {
		m.fnSeen[fn] = true
	}
	if len(g.stack) > 400 {
		panic(pathAbort{abBound, "call depth 400 @ " + m.where()})
	}
	fr := &Frame{m: m, g: g, fn: fn, info: fi, regs: make([]Value, fi.n), env: env, caller: caller}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	g.stack = append(g.stack, fr)
	depth := len(g.stack)
	fr.depth = depth
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
		g.stack = g.stack[:depth]
	}
	g.stack = g.stack[:depth-1]
	return fr.result
}

func (m *M) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return m.zero(sig.Results().At(0).Type())
	}
	return m.zero(sig.Results())
}

func (fr *Frame) run() {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		tp, ok := r.(tpanic)
		if !ok {
			panic(r)
		}
		fr.g.stack = fr.g.stack[:fr.depth]
		fr.panicking = true
		fr.panicV = tp
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		fr.prev = nil
		if fr.block == nil {
			fr.result = fr.m.zeroResults(fr.fn.Signature)
		}
	}()
	m := fr.m
	for {
		blk := fr.block
		// phis first (parallel)
		n := 0
		if fr.prev != nil {
			var tmp []Value
			for _, in := range blk.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range blk.Preds {
					if p == fr.prev {
						tmp = append(tmp, fr.get(phi.Edges[i]))
						break
					}
				}
				n++
			}
			for i := 0; i < n; i++ {
				fr.set(blk.Instrs[i].(*ssa.Phi), tmp[i])
			}
		}
		for _, in := range blk.Instrs[n:] {
			m.steps++
			if m.steps&0xffff == 0 {
				m.overtime()
			}
			if m.steps > m.maxSteps {
				panic(pathAbort{abBound, fmt.Sprintf("step bound %d @ %s", m.maxSteps, m.where())})
			}
			fr.curInstr = in
			switch x := in.(type) {
			case *ssa.Jump:
				fr.prev, fr.block = blk, blk.Succs[0]
				goto next
			case *ssa.If:
				s := 1
				if m.decide(fr.get(x.Cond).(*Term)) {
					s = 0
				}
				fr.prev, fr.block = blk, blk.Succs[s]
				goto next
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
				case 1:
					fr.result = fr.get(x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for i, r := range x.Results {
						t[i] = fr.get(r)
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Panic:
				v := fr.get(x.X).(Iface)
				panic(tpanic{v: v, msg: m.ifaceText(fr, v)})
			case *ssa.RunDefers:
				fr.runDefers()
			default:
				fr.exec(in)
			}
		}
		panic("fell off block")
	next:
	}
}

func (m *M) ifaceText(fr *Frame, v Iface) string {
	if v.t == nil {
		return "panic(nil)"
	}
	if s, ok := v.v.(Str); ok {
		if s.b == nil {
			return s.s
		}
		return "<symbolic string>"
	}
	return "panic of " + v.t.String()
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (fr *Frame) runDefer(d *deferred) {
	depth := len(fr.g.stack)
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(tpanic)
			if !is {
				panic(r)
			}
			fr.g.stack = fr.g.stack[:depth]
			fr.panicking = true
			fr.panicV = tp
		}
	}()
	fr.callValue(d.call, d.fn, d.args)
	ok = true
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.regs[fr.info.idx[v]] = x }

func (fr *Frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		return fr.m.constVal(x)
	case *ssa.Global:
		return fr.m.global(fr.g, x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fr.fn))
	}
	if i < 0 {
		return fr.env[-1-i]
	}
	return fr.regs[i]
}

func (m *M) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(m.unsupported("const of type param"))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(m.unsupported("const type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return m.c.B(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _ := intWidth(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return m.c.K(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return m.c.K(u, w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return Float{f}
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		i, _ := constant.Int64Val(c.Value)
		return Str{s: string(rune(i))}
	case b.Kind() == types.UnsafePointer:
		return Ptr(nil)
	}
	panic(m.unsupported("const " + c.String()))
}

// ---- globals and package initialisation (lazy)

func (m *M) global(g *Gor, gl *ssa.Global) Value {
	if p, ok := m.globals[gl]; ok {
		return p
	}
	m.ensureInit(g, gl.Pkg)
	return m.globalSlot(gl)
}

func (m *M) globalSlot(gl *ssa.Global) *Value {
	if p, ok := m.globals[gl]; ok {
		return p
	}
	p := new(Value)
	et := gl.Type().(*types.Pointer).Elem()
	*p = m.zero(et)
	if gl.Pkg != nil && noInit[gl.Pkg.Pkg.Path()] && et == types.Universe.Lookup("error").Type() {
		// error variables of packages whose initialiser is not run
		v := new(Value)
		*v = &Struct{f: []Value{Str{s: gl.Name()}}}
		*p = Iface{t: types.NewPointer(m.namedType("errors", "errorString")), v: Ptr(v)}
	}
	m.globals[gl] = p
	return p
}

var noInit = map[string]bool{"unsafe": true, "runtime": true, "net": true, "os": false, "crypto/tls": true, "reflect": true, "syscall": true, "net/http": true, "unicode": false, "internal/poll": false, "github.com/swaggo/files": true}

func (m *M) ensureInit(g *Gor, p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if noInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	if p.Pkg.Path() != healerPkg && len(f.Blocks) > 0 {
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
		}
		_ = n
	}
	m.initing++
	defer func() { m.initing-- }()
	fi := m.w.info(f)
	fr := &Frame{m: m, g: g, fn: f, info: fi, regs: make([]Value, fi.n)}
	if len(g.stack) > 0 {
		fr.caller = g.stack[len(g.stack)-1]
	}
	depth := len(g.stack)
	g.stack = append(g.stack, fr)
	fr.runInit(p)
	g.stack = g.stack[:depth]
}

// runInit executes a package initialiser tolerantly: calls to other packages'
// init are skipped (those are initialised lazily) and a failing instruction
// leaves its result at the zero value.
func (fr *Frame) runInit(p *ssa.Package) {
	m := fr.m
	fr.block = fr.fn.Blocks[0]
	depth := len(fr.g.stack)
	for fr.block != nil {
		blk := fr.block
		var nextB *ssa.BasicBlock
		for _, in := range blk.Instrs {
			m.steps++
			fr.curInstr = in
			switch x := in.(type) {
			case *ssa.Jump:
				nextB = blk.Succs[0]
			case *ssa.If:
				if c, ok := fr.get(x.Cond).(*Term); ok && c.isK() {
					if c.op == OTrue {
						nextB = blk.Succs[0]
					} else {
						nextB = blk.Succs[1]
					}
				} else {
					nextB = blk.Succs[1]
				}
			case *ssa.Return:
				nextB = nil
			case *ssa.Call:
				if cf := x.Call.StaticCallee(); cf != nil && cf.Name() == "init" && cf.Pkg != p {
					continue
				}
				fr.tryExec(in, depth)
			default:
				fr.tryExec(in, depth)
			}
		}
		fr.prev = blk
		fr.block = nextB
		if nextB != nil {
			for _, in := range nextB.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, pb := range nextB.Preds {
					if pb == blk {
						fr.set(phi, fr.get(phi.Edges[i]))
					}
				}
			}
		}
	}
}

func (fr *Frame) tryExec(in ssa.Instruction, depth int) {
	if _, ok := in.(*ssa.Phi); ok {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if pa, ok := r.(pathAbort); ok && (pa.kind == abKill || pa.kind == abBound) {
				panic(r)
			}
			if os, ok := r.(string); ok && debugEngine {
				fmt.Println("init:", os)
			}
			if debugEngine {
				fmt.Println("init failure", in, r)
			}
			fr.g.stack = fr.g.stack[:depth]
			if v, ok := in.(ssa.Value); ok {
				func() {
					defer func() { recover() }()
					fr.set(v, fr.m.zero(v.Type()))
				}()
			}
		}
	}()
	fr.exec(in)
}

// ---- instructions

func (fr *Frame) exec(in ssa.Instruction) {
	m := fr.m
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.set(x, Ptr(p))
	case *ssa.BinOp:
		fr.set(x, m.binop(x.Op, x.X.Type(), x.Y.Type(), fr.get(x.X), fr.get(x.Y)))
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.Call:
		fn, args := fr.prepareCall(&x.Call)
		r := fr.callValue(&x.Call, fn, args)
		fr.set(x, r)
	case *ssa.Defer:
		fn, args := fr.prepareCall(&x.Call)
		fr.defers = append(fr.defers, &deferred{fn: fn, args: args, call: &x.Call})
	case *ssa.Go:
		fn, args := fr.prepareCall(&x.Call)
		fr.goCall(&x.Call, fn, args)
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, m.conv(fr.get(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, m.conv(fr.get(x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		t := fr.get(x.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("extract of %T", t)))
		}
		fr.set(x, tt[x.Index])
	case *ssa.Field:
		v := fr.get(x.X)
		st, ok := v.(*Struct)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("field of %T", v)))
		}
		fr.set(x, m.copyVal(st.f[x.Field]))
	case *ssa.FieldAddr:
		p, ok := fr.get(x.X).(Ptr)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("fieldaddr of %T", fr.get(x.X))))
		}
		if p == nil {
			panic(m.nilDeref())
		}
		st, ok := (*p).(*Struct)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("fieldaddr into %T", *p)))
		}
		fr.set(x, Ptr(&st.f[x.Field]))
	case *ssa.Index:
		fr.set(x, fr.index(x))
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(x))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MakeChan:
		n := int(int64(m.concretize(m.asTerm(fr.get(x.Size)))))
		et := x.Type().Underlying().(*types.Chan).Elem()
		fr.set(x, &Chan{cap: n, zero: m.zero(et)})
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.set(x, c)
	case *ssa.MakeInterface:
		fr.set(x, Iface{t: x.X.Type(), v: m.copyVal(fr.get(x.X))})
	case *ssa.MakeMap:
		fr.set(x, newMap(x.Type().Underlying().(*types.Map)))
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l := m.sizeOf(fr.get(x.Len), x.Len.Type(), "makeslice: len out of range")
		c := l
		if x.Cap != x.Len {
			c = m.sizeOf(fr.get(x.Cap), x.Cap.Type(), "makeslice: cap out of range")
			if c < l {
				panic(m.tpanicStr("runtime error: makeslice: cap out of range"))
			}
		}
		fr.set(x, Slice{newArray(c, et), 0, l, c})
	case *ssa.MapUpdate:
		mv, _ := fr.get(x.Map).(*MapV)
		if mv == nil {
			panic(m.tpanicStr("assignment to entry in nil map"))
		}
		done := fr.mapWrite(mv)
		m.mapSet(mv, fr.get(x.Key), fr.get(x.Value))
		done()
	case *ssa.Next:
		fr.set(x, fr.nextIter(x))
	case *ssa.Range:
		v := fr.get(x.X)
		switch c := v.(type) {
		case *MapV:
			it := &mapIter{m: c}
			if c != nil {
				it.left = append(it.left, c.ents...)
			}
			fr.set(x, it)
		case Str:
			fr.set(x, &strIter{s: c})
		default:
			panic(m.unsupported(fmt.Sprintf("range over %T", v)))
		}
	case *ssa.Select:
		var cs []selCase
		for _, s := range x.States {
			c := selCase{send: s.Dir == types.SendOnly}
			c.ch, _ = fr.get(s.Chan).(*Chan)
			if c.send {
				c.val = fr.get(s.Send)
			}
			cs = append(cs, c)
		}
		i, v, ok := m.selectOp(fr.g, cs, x.Blocking)
		t := Tuple{m.c.K(uint64(int64(i)), 64), m.c.B(ok)}
		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				if j == i && v != nil {
					t = append(t, v)
				} else {
					t = append(t, m.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		fr.set(x, t)
	case *ssa.Send:
		ch, _ := fr.get(x.Chan).(*Chan)
		m.chanSend(fr.g, ch, m.copyVal(fr.get(x.X)))
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int(at.Len()) > s.len {
			panic(m.tpanicStr("runtime error: cannot convert slice to array pointer: length too short"))
		}
		if s.off == 0 && s.arr != nil && s.arr.n == int(at.Len()) {
			p := new(Value)
			*p = s.arr
			fr.set(x, Ptr(p))
			break
		}
		// copy semantics differ; only reads are modelled
		a := newArray(int(at.Len()), at.Elem())
		for i := 0; i < a.n; i++ {
			*m.slot(a, i) = m.aget(s.arr, s.off+i)
		}
		p := new(Value)
		*p = a
		fr.set(x, Ptr(p))
	case *ssa.Store:
		if m.memory {
			fr.memYield(x.Addr)
		}
		switch p := fr.get(x.Addr).(type) {
		case Ptr:
			if p == nil {
				panic(m.nilDeref())
			}
			m.store(p, fr.get(x.Val))
		case SymPtr:
			v := fr.get(x.Val).(*Term)
			for i := 0; i < p.n; i++ {
				s := m.slot(p.arr, p.off+i)
				*s = m.c.Ite(m.c.Eq(p.idx, m.c.K(uint64(i), 64)), v, (*s).(*Term))
			}
		default:
			panic(m.unsupported(fmt.Sprintf("store to %T", p)))
		}
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	default:
		panic(m.unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (m *M) asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(m.unsupported(fmt.Sprintf("expected integer, got %T", v)))
	}
	return t
}

func (m *M) nilDeref() tpanic {
	return m.tpanicStr("runtime error: invalid memory address or nil pointer dereference")
}

const maxAlloc = 64 << 20

func (m *M) sizeOf(v Value, t types.Type, msg string) int {
	x := m.toInt64(m.asTerm(v), t)
	if !x.isC() {
		// negative or enormous is a panic
		if m.decide(m.c.Slt(x, m.c.K(0, 64))) {
			panic(m.tpanicStr("runtime error: " + msg))
		}
		if m.decide(m.c.Slt(m.c.K(maxAlloc, 64), x)) {
			panic(m.tpanicStr("runtime error: " + msg + " (allocation larger than 64 MiB)"))
		}
	}
	n := int64(m.concretize(x))
	if n < 0 || n > maxAlloc {
		panic(m.tpanicStr("runtime error: " + msg))
	}
	return int(n)
}

func (m *M) toInt64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	_, signed := intWidth(ty)
	if signed {
		return m.c.SExt(t, 64)
	}
	return m.c.ZExt(t, 64)
}

func (fr *Frame) boundsPanic(msg string) tpanic {
	return fr.m.tpanicStr("runtime error: " + msg)
}

func (fr *Frame) elemAddr(arr *Array, off, n int, idxV Value, it types.Type) Value {
	m := fr.m
	idx := m.toInt64(m.asTerm(idxV), it)
	if idx.isC() {
		i := int64(idx.k)
		if i < 0 || i >= int64(n) {
			panic(fr.boundsPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return Ptr(m.slot(arr, off+int(i)))
	}
	if !m.decide(m.c.Ult(idx, m.c.K(uint64(n), 64))) {
		panic(fr.boundsPanic(fmt.Sprintf("index out of range [symbolic] with length %d", n)))
	}
	if (isInt(arr.elem) || isBool(arr.elem)) && n <= 300 {
		return SymPtr{arr, off, n, idx}
	}
	i := int(m.concretize(idx))
	return Ptr(m.slot(arr, off+i))
}

func (m *M) loadSym(p SymPtr) Value {
	mx := p.idx.umax()
	n := p.n
	if mx < uint64(n) {
		n = int(mx) + 1
	}
	r := m.aget(p.arr, p.off+n-1).(*Term)
	for i := n - 2; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(p.idx, m.c.K(uint64(i), 64)), m.aget(p.arr, p.off+i).(*Term), r)
	}
	return r
}

func (fr *Frame) indexAddr(x *ssa.IndexAddr) Value {
	m := fr.m
	switch v := fr.get(x.X).(type) {
	case Slice:
		if v.arr == nil {
			panic(fr.boundsPanic("index out of range with length 0"))
		}
		return fr.elemAddr(v.arr, v.off, v.len, fr.get(x.Index), x.Index.Type())
	case Ptr:
		if v == nil {
			panic(m.nilDeref())
		}
		a, ok := (*v).(*Array)
		if !ok {
			panic(m.unsupported("indexaddr"))
		}
		return fr.elemAddr(a, 0, a.n, fr.get(x.Index), x.Index.Type())
	default:
		panic(m.unsupported(fmt.Sprintf("indexaddr of %T", v)))
	}
}

func (fr *Frame) index(x *ssa.Index) Value {
	m := fr.m
	switch v := fr.get(x.X).(type) {
	case *Array:
		p := fr.elemAddr(v, 0, v.n, fr.get(x.Index), x.Index.Type())
		return m.load(p)
	case Str:
		return fr.strIndex(v, fr.get(x.Index), x.Index.Type())
	default:
		panic(m.unsupported(fmt.Sprintf("index of %T", v)))
	}
}

func (fr *Frame) strIndex(s Str, iv Value, it types.Type) Value {
	m := fr.m
	idx := m.toInt64(m.asTerm(iv), it)
	n := s.Len()
	if idx.isC() {
		i := int64(idx.k)
		if i < 0 || i >= int64(n) {
			panic(fr.boundsPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		if s.b != nil {
			return s.b[i]
		}
		return m.c.K(uint64(s.s[i]), 8)
	}
	if !m.decide(m.c.Ult(idx, m.c.K(uint64(n), 64))) {
		panic(fr.boundsPanic("index out of range [symbolic]"))
	}
	b := m.strBytes(s)
	r := b[n-1]
	for i := n - 2; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(idx, m.c.K(uint64(i), 64)), b[i], r)
	}
	return r
}

func (m *M) load(p Value) Value {
	switch a := p.(type) {
	case Ptr:
		if a == nil {
			panic(m.nilDeref())
		}
		return m.copyVal(*a)
	case SymPtr:
		return m.loadSym(a)
	}
	panic(m.unsupported(fmt.Sprintf("load from %T", p)))
}

func onlyOk(x ssa.Value) bool {
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); !ok || e.Index != 1 && len(*e.Referrers()) > 0 {
			return false
		}
	}
	return true
}

func (fr *Frame) lookup(x *ssa.Lookup) Value {
	m := fr.m
	switch c := fr.get(x.X).(type) {
	case *MapV:
		fr.mapRead(c)
		var v Value
		if x.CommaOk && c != nil {
			// only membership is asked for: no need to know which entry it is
			if _, conc := keyString(fr.get(x.Index)); !conc && onlyOk(x) {
				k := fr.get(x.Index)
				ok := m.c.fls
				for _, e := range c.ents {
					if !e.deleted {
						ok = m.c.Or(ok, m.eqVal(e.k, k))
					}
				}
				return Tuple{nil, ok}
			}
		}
		e := m.mapFind(c, fr.get(x.Index))
		if e != nil {
			v = m.copyVal(e.v)
		} else {
			v = m.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, m.c.B(e != nil)}
		}
		return v
	case Str:
		return fr.strIndex(c, fr.get(x.Index), x.Index.Type())
	default:
		panic(m.unsupported(fmt.Sprintf("lookup in %T", c)))
	}
}

func (fr *Frame) nextIter(x *ssa.Next) Value {
	m := fr.m
	switch it := fr.get(x.Iter).(type) {
	case *mapIter:
		fr.mapRead(it.m)
		var livee []*mapEnt
		for _, e := range it.left {
			if !e.deleted {
				livee = append(livee, e)
			}
		}
		it.left = livee
		if len(livee) == 0 {
			tt := x.Type().(*types.Tuple)
			z := func(t types.Type) Value {
				if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
					return nil
				}
				return m.zero(t)
			}
			return Tuple{m.c.fls, z(tt.At(1).Type()), z(tt.At(2).Type())}
		}
		i := 0
		if len(livee) > 1 && len(livee) <= m.mapFork && m.initing == 0 {
			i = m.choose(len(livee))
		}
		e := livee[i]
		it.left = append(append([]*mapEnt{}, livee[:i]...), livee[i+1:]...)
		return Tuple{m.c.tru, m.copyVal(e.k), m.copyVal(e.v)}
	case *strIter:
		n := it.s.Len()
		if it.i >= n {
			return Tuple{m.c.fls, m.c.K(0, 64), m.c.K(0, 32)}
		}
		i := it.i
		if it.s.b == nil {
			r, sz := utf8.DecodeRuneInString(it.s.s[i:])
			it.i += sz
			return Tuple{m.c.tru, m.c.K(uint64(i), 64), m.c.K(uint64(r), 32)}
		}
		b := it.s.b[i]
		if m.decide(m.c.Ult(b, m.c.K(0x80, 8))) {
			it.i++
			return Tuple{m.c.tru, m.c.K(uint64(i), 64), m.c.ZExt(b, 32)}
		}
		var buf []byte
		for j := i; j < n && j < i+4; j++ {
			buf = append(buf, byte(m.concretize(it.s.b[j])))
		}
		r, sz := utf8.DecodeRune(buf)
		it.i += sz
		return Tuple{m.c.tru, m.c.K(uint64(i), 64), m.c.K(uint64(r), 32)}
	}
	panic(m.unsupported("next"))
}

func (fr *Frame) slice(x *ssa.Slice) Value {
	m := fr.m
	v := fr.get(x.X)
	var length, capa int
	var arr *Array
	off := 0
	var str Str
	isStr := false
	switch s := v.(type) {
	case Slice:
		arr, off, length, capa = s.arr, s.off, s.len, s.cap
	case Str:
		str, isStr = s, true
		length = s.Len()
		capa = length
	case Ptr:
		if s == nil {
			panic(m.nilDeref())
		}
		arr = (*s).(*Array)
		length, capa = arr.n, arr.n
	default:
		panic(m.unsupported(fmt.Sprintf("slice of %T", v)))
	}
	lo, hi, mx := 0, length, capa
	getI := func(v ssa.Value, maxv int, what string) int {
		t := m.toInt64(m.asTerm(fr.get(v)), v.Type())
		if !t.isC() {
			if !m.decide(m.c.Ule(t, m.c.K(uint64(maxv), 64))) {
				panic(fr.boundsPanic("slice bounds out of range [" + what + "] with capacity " + fmt.Sprint(maxv)))
			}
		}
		i := int64(m.concretize(t))
		if i < 0 || i > int64(maxv) {
			panic(fr.boundsPanic(fmt.Sprintf("slice bounds out of range [%s %d] with capacity %d", what, i, maxv)))
		}
		return int(i)
	}
	if x.Max != nil {
		mx = getI(x.Max, capa, "max")
	}
	if x.High != nil {
		hi = getI(x.High, mx, "high")
	}
	if x.Low != nil {
		lo = getI(x.Low, hi, "low")
	} else if lo > hi {
		panic(fr.boundsPanic("slice bounds out of range"))
	}
	if isStr {
		if str.b != nil {
			return mkStr(str.b[lo:hi])
		}
		return Str{s: str.s[lo:hi]}
	}
	if arr == nil {
		return Slice{}
	}
	return Slice{arr, off + lo, hi - lo, mx - lo}
}

func (fr *Frame) typeAssert(x *ssa.TypeAssert) Value {
	m := fr.m
	i, ok := fr.get(x.X).(Iface)
	if !ok {
		panic(m.unsupported(fmt.Sprintf("typeassert on %T", fr.get(x.X))))
	}
	var v Value
	pass := false
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			pass = types.Implements(i.t, it)
			v = i
		} else {
			pass = types.Identical(i.t, x.AssertedType)
			v = i.v
		}
	}
	if pass {
		if x.CommaOk {
			return Tuple{v, m.c.tru}
		}
		return v
	}
	if x.CommaOk {
		return Tuple{m.zero(x.AssertedType), m.c.fls}
	}
	ts := "nil"
	if i.t != nil {
		ts = i.t.String()
	}
	panic(m.tpanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, x.AssertedType)))
}

func (fr *Frame) unop(x *ssa.UnOp) Value {
	m := fr.m
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		if m.memory {
			fr.memYield(x.X)
		}
		return m.load(v)
	case token.NOT:
		return m.c.Not(v.(*Term))
	case token.SUB:
		switch t := v.(type) {
		case *Term:
			return m.c.Sub(m.c.K(0, int(t.w)), t)
		case Float:
			return Float{-t.f}
		}
	case token.XOR:
		return m.c.BNot(v.(*Term))
	case token.ARROW:
		ch, _ := v.(*Chan)
		r, ok := m.chanRecv(fr.g, ch)
		if r == nil {
			r = ch.zero
		}
		if x.CommaOk {
			return Tuple{r, m.c.B(ok)}
		}
		return r
	}
	panic(m.unsupported(fmt.Sprintf("unop %s on %T", x.Op, v)))
}

func (m *M) binop(op token.Token, tx, ty types.Type, a, b Value) Value {
	c := m.c
	switch op {
	case token.EQL:
		return m.eqIface(tx, ty, a, b)
	case token.NEQ:
		return c.Not(m.eqIface(tx, ty, a, b))
	}
	switch x := a.(type) {
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			if x.b == nil && y.b == nil {
				return Str{s: x.s + y.s}
			}
			return mkStr(append(append([]*Term{}, m.strBytes(x)...), m.strBytes(y)...))
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return c.Not(m.strLess(y, x))
		case token.GEQ:
			return c.Not(m.strLess(x, y))
		}
	case Float:
		y := b.(Float)
		switch op {
		case token.ADD:
			return Float{x.f + y.f}
		case token.SUB:
			return Float{x.f - y.f}
		case token.MUL:
			return Float{x.f * y.f}
		case token.QUO:
			return Float{x.f / y.f}
		case token.LSS:
			return c.B(x.f < y.f)
		case token.GTR:
			return c.B(x.f > y.f)
		case token.LEQ:
			return c.B(x.f <= y.f)
		case token.GEQ:
			return c.B(x.f >= y.f)
		}
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if x.w == 0 { // bool & | (shouldn't occur except &&-like lowered)
			switch op {
			case token.AND:
				return c.And(x, y)
			case token.OR:
				return c.Or(x, y)
			}
			break
		}
		_, signed := intWidth(tx)
		w := int(x.w)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			if m.decide(c.Eq(y, c.K(0, w))) {
				panic(m.tpanicStr("runtime error: integer divide by zero"))
			}
			o := OUDiv
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.REM && signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return c.Div(o, x, y)
		case token.AND:
			return c.BAnd(x, y)
		case token.OR:
			return c.BOr(x, y)
		case token.XOR:
			return c.BXor(x, y)
		case token.AND_NOT:
			return c.BAnd(x, c.BNot(y))
		case token.SHL, token.SHR:
			_, ys := intWidth(ty)
			yw := int(y.w)
			if ys {
				if m.decide(c.Slt(y, c.K(0, yw))) {
					panic(m.tpanicStr("runtime error: negative shift amount"))
				}
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			if y.isC() {
				k := y.k
				if k > 64 {
					k = 64
				}
				return c.Shift(o, x, c.K(k, 64))
			}
			if yw <= w {
				return c.Shift(o, x, c.ZExt(y, w))
			}
			small := c.Ult(y, c.K(uint64(w), yw))
			var big *Term
			if o == OAShr {
				big = c.AShrK(x, w-1)
			} else {
				big = c.K(0, w)
			}
			return c.Ite(small, c.Shift(o, x, c.Extract(y, w-1, 0)), big)
		case token.LSS:
			if signed {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.GTR:
			if signed {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.LEQ:
			if signed {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GEQ:
			if signed {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	}
	panic(m.unsupported(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
}

func (m *M) eqIface(tx, ty types.Type, a, b Value) *Term {
	_, xi := tx.Underlying().(*types.Interface)
	_, yi := ty.Underlying().(*types.Interface)
	if xi && !yi {
		b = Iface{t: ty, v: b}
	} else if yi && !xi {
		a = Iface{t: tx, v: a}
	}
	return m.eqVal(a, b)
}

func (m *M) conv(v Value, from, to types.Type) Value {
	uf, ut := from.Underlying(), to.Underlying()
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return x
		}
		if isInt(ut) {
			w, _ := intWidth(ut)
			_, sg := intWidth(uf)
			switch {
			case w == int(x.w):
				return x
			case w < int(x.w):
				return m.c.Extract(x, w-1, 0)
			case sg:
				return m.c.SExt(x, w)
			default:
				return m.c.ZExt(x, w)
			}
		}
		if isFloat(ut) {
			k := m.concretize(x)
			w, sg := intWidth(uf)
			if sg {
				return Float{float64(sx(k, w))}
			}
			return Float{float64(k)}
		}
		if isString(ut) {
			k := m.concretize(x)
			w, _ := intWidth(uf)
			return Str{s: string(rune(sx(k, w)))}
		}
	case Float:
		if isFloat(ut) {
			if b := ut.(*types.Basic); b.Kind() == types.Float32 {
				return Float{float64(float32(x.f))}
			}
			return x
		}
		if isInt(ut) {
			w, sg := intWidth(ut)
			if sg {
				return m.c.K(uint64(int64(x.f)), w)
			}
			return m.c.K(uint64(x.f), w)
		}
	case Str:
		if isString(ut) {
			return x
		}
		if sl, ok := ut.(*types.Slice); ok {
			if isByteElem(sl.Elem()) {
				b := m.strBytes(x)
				s := m.bytesSlice(b)
				s.arr.elem = sl.Elem()
				return s
			}
			rs := []rune(m.concretizeStr(x))
			a := newArray(len(rs), sl.Elem())
			for i, r := range rs {
				*m.slot(a, i) = m.c.K(uint64(r), 32)
			}
			return Slice{a, 0, len(rs), len(rs)}
		}
	case Slice:
		if isString(ut) {
			if x.len == 0 {
				return Str{}
			}
			if isByteElem(uf.(*types.Slice).Elem()) {
				return mkStr(m.sliceBytes(x))
			}
			var rs []rune
			for i := 0; i < x.len; i++ {
				rs = append(rs, rune(m.concretize(m.aget(x.arr, x.off+i).(*Term))))
			}
			return Str{s: string(rs)}
		}
		return x
	case Ptr:
		return x
	case SymPtr:
		return x
	}
	if types.Identical(uf, ut) {
		return v
	}
	if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	panic(m.unsupported(fmt.Sprintf("convert %s -> %s (%T)", from, to, v)))
}

// ---- calls

func (fr *Frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	m := fr.m
	var args []Value
	v := fr.get(c.Value)
	if c.IsInvoke() {
		i, ok := v.(Iface)
		if !ok {
			panic(m.unsupported(fmt.Sprintf("invoke on %T", v)))
		}
		if i.t == nil {
			panic(m.nilDeref())
		}
		fn := m.findMethod(i.t, c.Method)
		if fn == nil {
			panic(m.unsupported("no method " + c.Method.String() + " on " + i.t.String()))
		}
		args = append(args, m.copyVal(i.v))
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		return &Closure{fn: fn}, args
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return v, args
}

func (m *M) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	return m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
}

func (m *M) methodByName(t types.Type, name string) *ssa.Function {
	ms := m.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (fr *Frame) callValue(cc *ssa.CallCommon, f Value, args []Value) Value {
	m := fr.m
	switch x := f.(type) {
	case *Closure:
		if x == nil {
			panic(m.nilDeref())
		}
		if x.nat != nil {
			return x.nat(fr, args)
		}
		return m.callFn(fr.g, x.fn, args, x.env)
	case *ssa.Builtin:
		return fr.builtin(x, cc, args)
	}
	panic(m.unsupported(fmt.Sprintf("call of %T", f)))
}

func (fr *Frame) goCall(cc *ssa.CallCommon, f Value, args []Value) {
	x, ok := f.(*Closure)
	if !ok || x == nil {
		panic(fr.m.unsupported("go of non-closure"))
	}
	if x.nat != nil {
		x.nat(fr, args)
		return
	}
	fr.m.spawn(fr, x.fn, x.env, args, x.fn.Name())
}

func (m *M) appendSlice(et types.Type, s Slice, vals func(i int) Value, n int) Slice {
	if n == 0 {
		return s
	}
	if s.len+n <= s.cap && s.arr != nil {
		r := Slice{s.arr, s.off, s.len + n, s.cap}
		for i := 0; i < n; i++ {
			m.store(m.slot(s.arr, s.off+s.len+i), vals(i))
		}
		return r
	}
	nc := s.cap * 2
	if nc < s.len+n {
		nc = s.len + n
	}
	if s.cap > 1024 && s.len+n < s.cap+s.cap/4 {
		nc = s.cap + s.cap/4
	}
	a := newArray(nc, et)
	for i := 0; i < s.len; i++ {
		if s.arr.pages[(s.off+i)/pageSize] == nil {
			continue
		}
		*m.slot(a, i) = m.copyVal(m.aget(s.arr, s.off+i))
	}
	for i := 0; i < n; i++ {
		*m.slot(a, s.len+i) = m.copyVal(vals(i))
	}
	return Slice{a, 0, s.len + n, nc}
}

func (fr *Frame) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []Value) Value {
	m := fr.m
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return m.c.K(uint64(x.len), 64)
		case Str:
			return m.c.K(uint64(x.Len()), 64)
		case *MapV:
			if x == nil {
				return m.c.K(0, 64)
			}
			return m.c.K(uint64(x.n), 64)
		case *Array:
			return m.c.K(uint64(x.n), 64)
		case *Chan:
			if x == nil {
				return m.c.K(0, 64)
			}
			m.yield(fr.g)
			return m.c.K(uint64(len(x.buf)), 64)
		case Ptr:
			return m.c.K(uint64((*x).(*Array).n), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.c.K(uint64(x.cap), 64)
		case *Array:
			return m.c.K(uint64(x.n), 64)
		case *Chan:
			if x == nil {
				return m.c.K(0, 64)
			}
			return m.c.K(uint64(x.cap), 64)
		}
	case "append":
		s := args[0].(Slice)
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		switch y := args[1].(type) {
		case Slice:
			// snapshot to be safe on overlap
			vals := make([]Value, y.len)
			for i := range vals {
				vals[i] = m.aget(y.arr, y.off+i)
			}
			return m.appendSlice(et, s, func(i int) Value { return vals[i] }, y.len)
		case Str:
			bs := m.strBytes(y)
			return m.appendSlice(et, s, func(i int) Value { return bs[i] }, len(bs))
		}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := min(d.len, y.len)
			if n == 0 {
				return m.c.K(0, 64)
			}
			vals := make([]Value, n)
			for i := range vals {
				if y.arr.pages[(y.off+i)/pageSize] != nil {
					vals[i] = m.copyVal(m.aget(y.arr, y.off+i))
				}
			}
			for i := range vals {
				if vals[i] == nil {
					if d.arr.pages[(d.off+i)/pageSize] == nil {
						continue
					}
					vals[i] = m.zero(d.arr.elem)
				}
				*m.slot(d.arr, d.off+i) = vals[i]
			}
			return m.c.K(uint64(n), 64)
		case Str:
			bs := m.strBytes(y)
			n := min(d.len, len(bs))
			for i := 0; i < n; i++ {
				*m.slot(d.arr, d.off+i) = bs[i]
			}
			return m.c.K(uint64(n), 64)
		}
	case "delete":
		mv, _ := args[0].(*MapV)
		if mv != nil {
			done := fr.mapWrite(mv)
			m.mapDelete(mv, args[1])
			done()
		}
		return nil
	case "close":
		ch, _ := args[0].(*Chan)
		m.chanClose(fr.g, ch)
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(tpanic{v: v, msg: m.ifaceText(fr, v)})
	case "recover":
		// recover works when called by a deferred function of a panicking frame
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicV
			if v.v.t == nil {
				return Iface{t: runtimeErrType(m.prog), v: Str{s: v.msg}}
			}
			return v.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := cc.Args[0].Type()
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				y := a.(*Term)
				_, sg := intWidth(t)
				var lt *Term
				if sg {
					lt = m.c.Slt(x, y)
				} else {
					lt = m.c.Ult(x, y)
				}
				if b.Name() == "max" {
					r = m.c.Ite(lt, y, x)
				} else {
					r = m.c.Ite(lt, x, y)
				}
			case Float:
				y := a.(Float)
				if b.Name() == "max" {
					r = Float{max(x.f, y.f)}
				} else {
					r = Float{min(x.f, y.f)}
				}
			default:
				panic(m.unsupported("min/max"))
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.deleted = true
				}
				x.ents, x.idx, x.n, x.nsym = nil, map[string]*mapEnt{}, 0, 0
			}
		case Slice:
			for i := 0; i < x.len; i++ {
				*m.slot(x.arr, x.off+i) = m.zero(x.arr.elem)
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			panic(m.nilDeref())
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil || s.cap == 0 {
			return Ptr(nil)
		}
		return SymPtr{arr: s.arr, off: s.off, n: s.cap, idx: m.c.K(0, 64)}
	case "String":
		n := int(m.concretize(m.asTerm(args[1])))
		if n == 0 {
			return Str{}
		}
		if p, ok := args[0].(SymPtr); ok {
			return mkStr(m.sliceBytes(Slice{p.arr, p.off, n, n}))
		}
	case "StringData":
		s := args[0].(Str)
		b := m.bytesSlice(m.strBytes(s))
		return SymPtr{arr: b.arr, n: b.len, idx: m.c.K(0, 64)}
	case "Slice":
		n := int(m.concretize(m.asTerm(args[1])))
		if p, ok := args[0].(SymPtr); ok {
			return Slice{p.arr, p.off, n, n}
		}
		if n == 0 {
			return Slice{}
		}
	}
	panic(m.unsupported("builtin " + b.Name() + fmt.Sprintf(" on %T", args[0])))
}

func shortPkg(s string) string { return s[strings.LastIndex(s, "/")+1:] }
