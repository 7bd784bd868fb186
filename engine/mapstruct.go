package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapstructure.WeakDecode of a map into a struct: what healer's configurations need of it. Values may be
// symbolic integers and booleans; strings that have to be parsed are made concrete.
func mapstructNatives(n map[string]native) {
	n["github.com/mitchellh/mapstructure.WeakDecode"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		in, out := a[0].(Iface), a[1].(Iface)
		p, ok := out.v.(Ptr)
		if !ok || p == nil {
			return fr.m.newErr(fr.g, "result must be a pointer")
		}
		d := &msDec{fr: fr, m: fr.m}
		d.decode("", in.t, in.v, out.t.Underlying().(*types.Pointer).Elem(), p)
		if len(d.errs) > 0 {
			return fr.m.newErr(fr.g, fmt.Sprintf("%d error(s) decoding:\n\n* %s", len(d.errs), strings.Join(d.errs, "\n* ")))
		}
		return Iface{}
	}
}

type msDec struct {
	fr   *Frame
	m    *M
	errs []string
}

func (d *msDec) err(f string, a ...any) { d.errs = append(d.errs, fmt.Sprintf(f, a...)) }

func (d *msDec) decode(name string, t types.Type, v Value, to types.Type, p Ptr) {
	for {
		if t == nil {
			return // nil leaves the field as it is
		}
		if _, ok := t.Underlying().(*types.Interface); !ok {
			break
		}
		i := v.(Iface)
		t, v = i.t, i.v
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		x, _ := v.(Ptr)
		if x == nil {
			return
		}
		d.decode(name, pt.Elem(), *x, to, p)
		return
	}
	m := d.m
	switch u := to.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(to):
			switch {
			case isString(t):
				m.store(p, v)
			case isBool(t):
				if m.decide(v.(*Term)) {
					m.store(p, Str{s: "1"})
				} else {
					m.store(p, Str{s: "0"})
				}
			case isInt(t):
				_, signed := intWidth(t)
				k := m.concretize(v.(*Term))
				if signed {
					w, _ := intWidth(t)
					m.store(p, Str{s: strconv.FormatInt(int64(k)<<(64-w)>>(64-w), 10)})
				} else {
					m.store(p, Str{s: strconv.FormatUint(k, 10)})
				}
			default:
				d.err("'%s' expected type 'string', got unconvertible type '%s'", name, t)
			}
		case isBool(to):
			switch {
			case isBool(t):
				m.store(p, v)
			case isInt(t):
				w, _ := intWidth(t)
				m.store(p, m.c.Not(m.c.Eq(v.(*Term), m.c.K(0, w))))
			case isString(t):
				s := m.concretizeStr(v.(Str))
				b, err := strconv.ParseBool(s)
				if err != nil && s != "" {
					d.err("cannot parse '%s' as bool: %s", name, err)
					return
				}
				m.store(p, m.c.B(b))
			default:
				d.err("'%s' expected type 'bool', got unconvertible type '%s'", name, t)
			}
		case isInt(to):
			w, signed := intWidth(to)
			switch {
			case isInt(t):
				x := v.(*Term)
				fw, fs := intWidth(t)
				if w <= fw {
					x = m.c.Extract(x, w-1, 0)
				} else if fs {
					x = m.c.SExt(x, w)
				} else {
					x = m.c.ZExt(x, w)
				}
				m.store(p, x)
			case isBool(t):
				m.store(p, m.c.Ite(v.(*Term), m.c.K(1, w), m.c.K(0, w)))
			case isString(t):
				s := m.concretizeStr(v.(Str))
				if s == "" {
					s = "0"
				}
				var k uint64
				var err error
				if signed {
					var i int64
					i, err = strconv.ParseInt(s, 0, w)
					k = uint64(i)
				} else {
					k, err = strconv.ParseUint(s, 0, w)
				}
				if err != nil {
					d.err("cannot parse '%s' as int: %s", name, err)
					return
				}
				m.store(p, m.c.K(k, w))
			default:
				d.err("'%s' expected type '%s', got unconvertible type '%s'", name, to, t)
			}
		default:
			panic(m.unsupported("mapstructure to " + to.String()))
		}
	case *types.Pointer:
		x, _ := (*p).(Ptr)
		if x == nil {
			z := m.zero(u.Elem())
			x = Ptr(&z)
		}
		d.decode(name, t, v, u.Elem(), x)
		m.store(p, x)
	case *types.Slice:
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			panic(m.unsupported("mapstructure of " + t.String() + " to a slice"))
		}
		in := v.(Slice)
		out := (*p).(Slice)
		if out.arr == nil || out.len < in.len {
			na := newArray(in.len, u.Elem())
			for i := 0; i < in.len; i++ {
				if i < out.len {
					m.store(m.slot(na, i), m.aget(out.arr, out.off+i))
				} else {
					m.store(m.slot(na, i), m.zero(u.Elem()))
				}
			}
			out = Slice{arr: na, len: in.len, cap: in.len}
		}
		for i := 0; i < in.len; i++ {
			d.decode(fmt.Sprintf("%s[%d]", name, i), st.Elem(), m.aget(in.arr, in.off+i), u.Elem(), m.slot(out.arr, out.off+i))
		}
		m.store(p, out)
	case *types.Struct:
		if types.Identical(t, to) {
			m.store(p, v)
			return
		}
		mt, ok := t.Underlying().(*types.Map)
		if !ok || !isString(mt.Key()) {
			d.err("'%s' expected a map, got '%s'", name, t)
			return
		}
		mv, _ := v.(*MapV)
		s := (*p).(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			key, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("mapstructure"), ",")
			if key == "" {
				key = u.Field(i).Name()
			}
			var ent *mapEnt
			if mv != nil {
				ent = m.mapFind(mv, Str{s: key})
				if ent == nil {
					for _, e := range mv.ents {
						if !e.deleted && strings.EqualFold(m.concretizeStr(e.k.(Str)), key) {
							ent = e
							break
						}
					}
				}
			}
			if ent == nil {
				continue
			}
			f := key
			if name != "" {
				f = name + "." + key
			}
			d.decode(f, mt.Elem(), ent.v, u.Field(i).Type(), &s.f[i])
		}
	default:
		panic(m.unsupported("mapstructure to " + to.String()))
	}
}
