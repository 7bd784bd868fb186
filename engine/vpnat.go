package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var tierN int

var vpNatives map[string]native

func init() {
	vpNatives = map[string]native{}
	n := vpNatives
	sc := func(w int) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			return fr.m.newVar(fr.m.vpName(a[0]), w)
		}
	}
	n["vpU8"], n["vpI8"] = sc(8), sc(8)
	n["vpU16"], n["vpI16"] = sc(16), sc(16)
	n["vpU32"], n["vpI32"] = sc(32), sc(32)
	n["vpU64"], n["vpI64"] = sc(64), sc(64)
	n["vpBool"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		v := fr.m.newVar(fr.m.vpName(a[0]), 8)
		fr.m.assume(fr.m.c.Ule(v, fr.m.c.K(1, 8)))
		return fr.m.c.Eq(v, fr.m.c.K(1, 8))
	}
	n["vpInt"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		v := fr.m.newVar(fr.m.vpName(a[0]), 64)
		c := fr.m.c
		fr.m.assume(c.And(c.Sle(a[1].(*Term), v), c.Sle(v, a[2].(*Term))))
		return v
	}
	n["vpChoose"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		// an integer in [0,n): a solver variable resolved by forking
		k := int(m.concretize(a[1].(*Term)))
		i := m.choose(k)
		m.logChoice(m.vpName(a[0]), 64, uint64(i))
		return m.kInt(i)
	}
	n["vpBytes"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		name := m.vpName(a[0])
		k := int(m.concretize(a[1].(*Term)))
		b := make([]*Term, k)
		for i := range b {
			b[i] = m.newVar(name, 8)
		}
		return m.bytesSlice(b)
	}
	n["vpStr"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		name := m.vpName(a[0])
		k := int(m.concretize(a[1].(*Term)))
		b := make([]*Term, k)
		for i := range b {
			b[i] = m.newVar(name, 8)
		}
		return mkStr(b)
	}
	n["vpAssume"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.assume(a[0].(*Term))
		return nil
	}
	n["vpAssert"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		msg, _ := fr.m.concreteStr(a[1])
		fr.m.assertT(a[0].(*Term), msg)
		return nil
	}
	n["vpReach"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s, _ := fr.m.concreteStr(a[0])
		fr.m.reached[s] = true
		return nil
	}
	n["vpAnd"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.And(a[0].(*Term), a[1].(*Term)) }
	n["vpOr"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.Or(a[0].(*Term), a[1].(*Term)) }
	n["vpImplies"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.c.Or(fr.m.c.Not(a[0].(*Term)), a[1].(*Term))
	}
	n["vpSame"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.deepEq(a[0], a[1], true, 0) }
	n["vpEqBytes"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.deepEq(a[0], a[1], true, 0)
	}
	n["vpIsConcrete"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.tru }
	n["vpPick"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		// concretise an int by forking over its feasible values
		return fr.m.c.K(fr.m.concretize(a[0].(*Term)), 64)
	}
	n["vpMapOrder"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.mapFork = int(fr.m.concretize(a[0].(*Term)))
		return nil
	}
	n["vpMemory"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.memory = fr.m.concretize(a[0].(*Term)) != 0
		return nil
	}
	n["vpPreempt"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.maxPre = int(fr.m.concretize(a[0].(*Term)))
		return nil
	}
	n["vpDelays"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.delays = int(fr.m.concretize(a[0].(*Term)))
		return nil
	}
	n["vpSelects"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.selects = int(fr.m.concretize(a[0].(*Term)))
		return nil
	}
	n["vpMaxSteps"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.maxSteps = int(fr.m.concretize(a[0].(*Term)))
		return nil
	}
	n["vpYield"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.yield(fr.g)
		return nil
	}
	n["vpWaitIdle"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		// park until no other goroutine can make progress
		m := fr.m
		for m.initing == 0 {
			busy := false
			for _, o := range m.gors {
				if o != fr.g && !o.done && (o.ready == nil || o.ready()) {
					busy = true
				}
			}
			if !busy {
				return nil
			}
			g := fr.g
			m.block(g, "waitIdle", func() bool {
				for _, o := range m.gors {
					if o != g && !o.done && (o.ready == nil || o.ready()) {
						return false
					}
				}
				return true
			})
		}
		return nil
	}
	n["vpGoroutines"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		k := 0
		for _, o := range fr.m.gors {
			if o != fr.g && !o.done {
				k++
			}
		}
		return fr.m.kInt(k)
	}
	n["vpTrace"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := fr.sprintf(a[0].(Str), a[1].(Slice))
		if s.b != nil {
			s.s = fmt.Sprintf("<symbolic %d bytes>", len(s.b))
		}
		fr.m.trace = append(fr.m.trace, s.s)
		return nil
	}
	n["vpSymbolic"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.c.tru }
	n["vpTier"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return fr.m.kInt(tierN) }
	_ = types.Typ
}

func (m *M) vpName(v Value) string {
	s, ok := m.concreteStr(v)
	if !ok {
		panic(m.unsupported("symbolic name"))
	}
	return s
}
