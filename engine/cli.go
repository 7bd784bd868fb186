package main

// What the command line tool needs of its environment: standard input and output, encoding/json, signals.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cliPkg = healerPkg + "/command/healer/cmd"

func (m *M) print(s Str) Value {
	b := m.strBytes(s)
	m.stdout = append(m.stdout, b...)
	return Tuple{m.kInt(len(b)), Iface{}}
}

func cliNatives(n map[string]native) {
	n["fmt.Printf"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if !fr.m.stdio {
			return fr.m.zeroResults(fn.Signature)
		}
		return fr.m.print(fr.sprintf(a[0].(Str), a[1].(Slice)))
	}
	n["fmt.Print"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if !fr.m.stdio {
			return fr.m.zeroResults(fn.Signature)
		}
		return fr.m.print(fr.sprint(a[0].(Slice), false))
	}
	n["fmt.Println"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if !fr.m.stdio {
			return fr.m.zeroResults(fn.Signature)
		}
		return fr.m.print(fr.sprint(a[0].(Slice), true))
	}
	n["(*os.File).Read"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		if !m.stdio {
			panic(m.unsupported("reading a file"))
		}
		b := a[1].(Slice)
		if len(m.stdin) == 0 {
			return Tuple{m.kInt(0), m.globalErr(fr.g, "io", "EOF")}
		}
		k := min(b.len, len(m.stdin))
		for i := 0; i < k; i++ {
			m.store(m.slot(b.arr, b.off+i), m.stdin[i])
		}
		m.stdin = m.stdin[k:]
		return Tuple{m.kInt(k), Iface{}}
	}
	n["(*os.File).Write"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{m0len(fr, a[1]), Iface{}}
	}
	n["net/http.ListenAndServe"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		if p := fr.m.prog.ImportedPackage(cliPkg); p != nil {
			if t := p.Func("vpListen"); t != nil {
				return fr.m.callFn(fr.g, t, a, nil)
			}
		}
		panic(fr.m.unsupported(fn.String()))
	}
	// without the logger, and with net/http's recovery instead of its own
	n["github.com/gin-gonic/gin.Default"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return fr.m.callFn(fr.g, fn.Pkg.Func("New"), a, nil)
	}
	n["github.com/gin-gonic/gin.LoggerWithConfig"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return &Closure{nat: func(fr *Frame, args []Value) Value { return nil }}
	}
	n["os/signal.Notify"] = nZero
	n["os/signal.Stop"] = nZero
	n["encoding/json.Marshal"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		e := &jsonEnc{fr: fr, m: m}
		i := a[0].(Iface)
		e.enc(i.v, i.t)
		if e.err.t != nil {
			return Tuple{m.zero(types.NewSlice(types.Typ[types.Byte])), e.err}
		}
		return Tuple{m.bytesSlice(m.strBytes(Str{s: e.b.String()})), Iface{}}
	}
	n["encoding/json.MarshalIndent"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		e := &jsonEnc{fr: fr, m: m}
		i := a[0].(Iface)
		e.enc(i.v, i.t)
		if e.err.t != nil {
			return Tuple{m.zero(types.NewSlice(types.Typ[types.Byte])), e.err}
		}
		var out bytes.Buffer
		json.Indent(&out, e.b.Bytes(), m.concretizeStr(a[1].(Str)), m.concretizeStr(a[2].(Str)))
		return Tuple{m.bytesSlice(m.strBytes(Str{s: out.String()})), Iface{}}
	}
	n["github.com/gin-gonic/gin/binding.decodeJSON"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		all := fr.m.callFn(fr.g, m.prog.ImportedPackage("io").Func("ReadAll"), a[:1], nil).(Tuple)
		if e := all[1].(Iface); e.t != nil {
			return e
		}
		src := all[0].(Slice)
		if len(strings.TrimSpace(m.concretizeStr(mkStr(m.sliceBytes(src))))) == 0 {
			return m.globalErr(fr.g, "io", "EOF")
		}
		return n["encoding/json.Unmarshal"](fr, fn, []Value{src, a[1]})
	}
	n["encoding/json.Unmarshal"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		src := []byte(m.concretizeStr(mkStr(m.sliceBytes(a[0].(Slice)))))
		out := a[1].(Iface)
		p, ok := out.v.(Ptr)
		if !ok || p == nil {
			return m.newErr(fr.g, "json: Unmarshal(non-pointer)")
		}
		var x any
		d := json.NewDecoder(bytes.NewReader(src))
		d.UseNumber()
		if !json.Valid(src) {
			return m.newErr(fr.g, "invalid JSON")
		}
		if err := d.Decode(&x); err != nil {
			return m.newErr(fr.g, err.Error())
		}
		j := &jsonDec{fr: fr, m: m}
		j.decode(x, out.t.Underlying().(*types.Pointer).Elem(), p)
		if j.err.t != nil {
			return j.err
		}
		return Iface{}
	}
	vpNatives["vpStdio"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.stdio = true
		fr.m.stdin = append([]*Term{}, fr.m.sliceBytes(a[0].(Slice))...)
		fr.m.stdout = nil
		return nil
	}
	vpNatives["vpStdout"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return mkStr(fr.m.stdout)
	}
}

func m0len(fr *Frame, v Value) Value { return fr.m.kInt(v.(Slice).len) }

type jsonDec struct {
	fr  *Frame
	m   *M
	err Iface
}

func (d *jsonDec) fail(f string, a ...any) {
	if d.err.t == nil {
		d.err = d.m.newErr(d.fr.g, fmt.Sprintf(f, a...))
	}
}

func (d *jsonDec) decode(x any, to types.Type, p Ptr) {
	m := d.m
	if nt, ok := to.(*types.Named); ok && nt.Obj().Pkg() != nil {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(to), true, nt.Obj().Pkg(), "UnmarshalJSON"); o != nil {
			if _, ok := o.(*types.Func); ok {
				raw, _ := json.Marshal(x)
				r, _ := d.fr.callMethod(Iface{t: types.NewPointer(to), v: p}, "UnmarshalJSON", m.bytesSlice(m.strBytes(Str{s: string(raw)})))
				if e, ok := r.(Iface); ok && e.t != nil && d.err.t == nil {
					d.err = e
				}
				return
			}
		}
	}
	if s, ok := x.(string); ok {
		if nt, ok := to.(*types.Named); ok && nt.Obj().Pkg() != nil {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(to), true, nt.Obj().Pkg(), "UnmarshalText"); o != nil {
				if _, ok := o.(*types.Func); ok {
					r, _ := d.fr.callMethod(Iface{t: types.NewPointer(to), v: p}, "UnmarshalText", m.bytesSlice(m.strBytes(Str{s: s})))
					if e, ok := r.(Iface); ok && e.t != nil && d.err.t == nil {
						d.err = e
					}
					return
				}
			}
		}
	}
	if x == nil {
		switch to.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			m.store(p, m.zero(to))
		}
		return
	}
	switch u := to.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(to):
			if s, ok := x.(string); ok {
				m.store(p, Str{s: s})
			} else {
				d.fail("json: cannot unmarshal into Go value of type string")
			}
		case isBool(to):
			if b, ok := x.(bool); ok {
				m.store(p, m.c.B(b))
			} else {
				d.fail("json: cannot unmarshal into Go value of type bool")
			}
		case isInt(to):
			w, signed := intWidth(to)
			k, ok := x.(json.Number)
			if !ok {
				d.fail("json: cannot unmarshal into Go value of type %s", to)
				return
			}
			i, err := k.Int64()
			if err != nil || signed && i<<(64-w)>>(64-w) != i || !signed && (i < 0 || w < 64 && i>>w != 0) {
				d.fail("json: cannot unmarshal number into Go value of type %s", to)
				return
			}
			m.store(p, m.c.K(uint64(i), w))
		default:
			panic(m.unsupported("json into " + to.String()))
		}
	case *types.Pointer:
		y, _ := (*p).(Ptr)
		if y == nil {
			z := m.zero(u.Elem())
			y = Ptr(&z)
		}
		d.decode(x, u.Elem(), y)
		m.store(p, y)
	case *types.Interface:
		m.store(p, d.any(x))
	case *types.Map:
		o, ok := x.(map[string]any)
		if !ok || !isString(u.Key()) {
			d.fail("json: cannot unmarshal into Go value of type %s", to)
			return
		}
		mv, _ := (*p).(*MapV)
		if mv == nil {
			mv = newMap(u)
			m.store(p, mv)
		}
		for k, v := range o {
			z := m.zero(u.Elem())
			d.decode(v, u.Elem(), Ptr(&z))
			m.mapSet(mv, Str{s: k}, z)
		}
	case *types.Slice:
		l, ok := x.([]any)
		if !ok {
			d.fail("json: cannot unmarshal into Go value of type %s", to)
			return
		}
		na := newArray(len(l), u.Elem())
		for i, v := range l {
			m.store(m.slot(na, i), m.zero(u.Elem()))
			d.decode(v, u.Elem(), m.slot(na, i))
		}
		m.store(p, Slice{arr: na, len: len(l), cap: len(l)})
	case *types.Struct:
		o, ok := x.(map[string]any)
		if !ok {
			d.fail("json: cannot unmarshal into Go value of type %s", to)
			return
		}
		s := (*p).(*Struct)
		for i := 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			key, _, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			if key == "-" {
				continue
			}
			if key == "" {
				key = u.Field(i).Name()
			}
			for k, v := range o {
				if strings.EqualFold(k, key) {
					d.decode(v, u.Field(i).Type(), &s.f[i])
				}
			}
		}
	default:
		panic(m.unsupported("json into " + to.String()))
	}
}

// any is the value an empty interface gets.
func (d *jsonDec) any(x any) Iface {
	m := d.m
	switch v := x.(type) {
	case nil:
		return Iface{}
	case string:
		return Iface{t: types.Typ[types.String], v: Str{s: v}}
	case bool:
		return Iface{t: types.Typ[types.Bool], v: m.c.B(v)}
	case map[string]any:
		t := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
		mv := newMap(t)
		for k, e := range v {
			m.mapSet(mv, Str{s: k}, d.any(e))
		}
		return Iface{t: t, v: mv}
	}
	panic(m.unsupported(fmt.Sprintf("json %T into an interface", x)))
}

// jsonEnc writes values as encoding/json does; numbers and text that are not fixed become "?".
type jsonEnc struct {
	fr  *Frame
	m   *M
	b   bytes.Buffer
	err Iface
}

func (e *jsonEnc) str(s Str) {
	if s.b != nil {
		e.b.WriteString(`"?"`)
		return
	}
	x, _ := json.Marshal(s.s)
	e.b.Write(x)
}

func (e *jsonEnc) enc(v Value, t types.Type) {
	m := e.m
	if t == nil {
		e.b.WriteString("null")
		return
	}
	isNil := func() bool {
		switch x := v.(type) {
		case Ptr:
			return x == nil
		case Slice:
			return x.arr == nil
		case *MapV:
			return x == nil
		case Iface:
			return x.t == nil
		}
		return v == nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		i := v.(Iface)
		e.enc(i.v, i.t)
		return
	}
	if _, ok := t.Underlying().(*types.Pointer); ok && isNil() {
		e.b.WriteString("null")
		return
	}
	for _, name := range []string{"MarshalJSON", "MarshalText"} {
		if m.methodByName(t, name) == nil {
			continue
		}
		r, _ := e.fr.callMethod(Iface{t: t, v: v}, name)
		tu := r.(Tuple)
		if x := tu[1].(Iface); x.t != nil {
			if e.err.t == nil {
				e.err = x
			}
			return
		}
		s := mkStr(m.sliceBytes(tu[0].(Slice)))
		if name == "MarshalText" {
			e.str(s)
		} else {
			e.b.WriteString(m.concretizeStr(s))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(t):
			e.str(v.(Str))
		case isBool(t):
			x := v.(*Term)
			if !x.isC() {
				e.b.WriteString(`"?"`)
			} else {
				fmt.Fprint(&e.b, x.k != 0)
			}
		case isInt(t):
			x := v.(*Term)
			w, signed := intWidth(t)
			if !x.isC() {
				e.b.WriteString(`"?"`)
			} else if signed {
				fmt.Fprint(&e.b, int64(x.k)<<(64-w)>>(64-w))
			} else {
				fmt.Fprint(&e.b, x.k)
			}
		default:
			panic(m.unsupported("json of " + t.String()))
		}
	case *types.Pointer:
		e.enc(*v.(Ptr), u.Elem())
	case *types.Slice, *types.Array:
		var arr *Array
		off, n := 0, 0
		var elem types.Type
		if sl, ok := v.(Slice); ok {
			if isNil() {
				e.b.WriteString("null")
				return
			}
			arr, off, n, elem = sl.arr, sl.off, sl.len, u.(*types.Slice).Elem()
			if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				x, _ := json.Marshal([]byte(m.concretizeStr(mkStr(m.sliceBytes(sl)))))
				e.b.Write(x)
				return
			}
		} else {
			panic(m.unsupported("json of " + t.String()))
		}
		e.b.WriteByte('[')
		for i := 0; i < n; i++ {
			if i > 0 {
				e.b.WriteByte(',')
			}
			e.enc(*m.slot(arr, off+i), elem)
		}
		e.b.WriteByte(']')
	case *types.Map:
		if isNil() {
			e.b.WriteString("null")
			return
		}
		mv := v.(*MapV)
		type kv struct {
			k string
			v Value
		}
		var l []kv
		for _, x := range mv.ents {
			if x.deleted {
				continue
			}
			k := &jsonEnc{fr: e.fr, m: m}
			k.enc(x.k, u.Key())
			s := k.b.String()
			if len(s) == 0 || s[0] != '"' {
				s = `"` + s + `"`
			}
			l = append(l, kv{s, x.v})
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].k < l[j].k })
		e.b.WriteByte('{')
		for i, x := range l {
			if i > 0 {
				e.b.WriteByte(',')
			}
			e.b.WriteString(x.k + ":")
			e.enc(x.v, u.Elem())
		}
		e.b.WriteByte('}')
	case *types.Struct:
		e.b.WriteByte('{')
		first := true
		e.fields(v.(*Struct), u, &first)
		e.b.WriteByte('}')
	default:
		panic(m.unsupported("json of " + t.String()))
	}
}

func (e *jsonEnc) fields(s *Struct, u *types.Struct, first *bool) {
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		key, opt, _ := strings.Cut(tag, ",")
		if tag == "-" {
			continue
		}
		if f.Anonymous() && key == "" {
			ft := f.Type()
			fv := s.f[i]
			if p, ok := ft.Underlying().(*types.Pointer); ok {
				x, _ := fv.(Ptr)
				if x == nil {
					continue
				}
				ft, fv = p.Elem(), *x
			}
			if st, ok := ft.Underlying().(*types.Struct); ok {
				e.fields(fv.(*Struct), st, first)
				continue
			}
		}
		if !f.Exported() {
			continue
		}
		if key == "" {
			key = f.Name()
		}
		if strings.Contains(opt, "omitempty") {
			z := &jsonEnc{fr: e.fr, m: e.m}
			z.enc(s.f[i], f.Type())
			switch z.b.String() {
			case "null", "0", "false", `""`, "[]", "{}":
				continue
			}
		}
		if !*first {
			e.b.WriteByte(',')
		}
		*first = false
		x, _ := json.Marshal(key)
		e.b.Write(x)
		e.b.WriteByte(':')
		e.enc(s.f[i], f.Type())
	}
}
