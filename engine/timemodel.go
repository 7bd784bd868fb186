package main

import (
	"time"

	"golang.org/x/tools/go/ssa"
)

// Times are time.Time{wall: nanoseconds, ext: seconds since year 1, loc: nil}. A time to which a symbolic
// duration was added is time.Time{wall: 1<<63, ext: nanoseconds since 1970, loc: nil}; only its distance to other times can be asked for.

const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400

// symDur is the length of a timer; it has to be concrete
func symDur(fr *Frame, v Value) int64 {
	t := v.(*Term)
	if !t.isC() {
		panic(fr.m.unsupported("timer or sleep with a symbolic duration"))
	}
	return int64(t.k)
}

func (m *M) goTime(v Value) (time.Time, bool) {
	s := v.(*Struct)
	w, e := s.f[0].(*Term), s.f[1].(*Term)
	if !w.isC() || !e.isC() || w.k>>63 != 0 {
		return time.Time{}, false
	}
	return time.Unix(int64(e.k)-unixToInternal, int64(w.k)).UTC(), true
}

// timeNs is the time in nanoseconds since 1970
func (m *M) timeNs(v Value) *Term {
	if t, ok := m.goTime(v); ok {
		if t.Year() < 1700 || t.Year() > 2200 {
			panic(m.unsupported("distance of a symbolic time to a zero time"))
		}
		return m.c.K(uint64(t.UnixNano()), 64)
	}
	s := v.(*Struct)
	if w := s.f[0].(*Term); !w.isC() || w.k != 1<<63 {
		panic(m.unsupported("time of unknown form"))
	}
	return s.f[1].(*Term)
}

func (m *M) fromGo(t time.Time) Value {
	return &Struct{f: []Value{m.c.K(uint64(t.Nanosecond()), 64), m.c.K(uint64(t.Unix()+unixToInternal), 64), Ptr(nil)}}
}

func timeNatives(n map[string]native) {
	n["(time.Time).Add"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		d := a[1].(*Term)
		if t, ok := m.goTime(a[0]); ok && d.isC() {
			return m.fromGo(t.Add(time.Duration(d.k)))
		}
		return &Struct{f: []Value{m.c.K(1<<63, 64), m.c.Add(m.timeNs(a[0]), d), Ptr(nil)}}
	}
	sub := func(m *M, x, y Value) Value {
		t, ok := m.goTime(x)
		u, ok2 := m.goTime(y)
		if ok && ok2 {
			return m.c.K(uint64(t.Sub(u)), 64)
		}
		return m.c.Sub(m.timeNs(x), m.timeNs(y))
	}
	n["(time.Time).Sub"] = func(fr *Frame, fn *ssa.Function, a []Value) Value { return sub(fr.m, a[0], a[1]) }
	n["time.Until"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return sub(fr.m, a[0], fr.m.mkTime(fr.m.now))
	}
	n["time.Since"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return sub(fr.m, fr.m.mkTime(fr.m.now), a[0])
	}
	cmp := func(f func(t, u time.Time) bool, g func(m *M, d *Term) *Term) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			t, ok := m.goTime(a[0])
			u, ok2 := m.goTime(a[1])
			if ok && ok2 {
				return m.c.B(f(t, u))
			}
			return g(m, m.c.Sub(m.timeNs(a[0]), m.timeNs(a[1])))
		}
	}
	n["(time.Time).Before"] = cmp(time.Time.Before, func(m *M, d *Term) *Term { return m.c.Slt(d, m.c.K(0, 64)) })
	n["(time.Time).After"] = cmp(time.Time.After, func(m *M, d *Term) *Term { return m.c.Slt(m.c.K(0, 64), d) })
	n["(time.Time).Equal"] = cmp(time.Time.Equal, func(m *M, d *Term) *Term { return m.c.Eq(d, m.c.K(0, 64)) })
}
