package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Compression libraries are replaced by an idealised inverse pair: a marker
// byte naming the codec followed by the data. Only the property
// decompress(compress(x)) = x of the libraries is used.

type codecState struct {
	marker byte
	w      Iface   // underlying writer
	buf    []*Term // pending
	r      []*Term // reader payload
	pos    int
	bad    bool
	src    Iface
	loaded bool
}

func (fr *Frame) readAll(r Iface) ([]*Term, Iface) {
	m := fr.m
	p := m.prog.ImportedPackage("io")
	f := p.Func("ReadAll")
	t := m.callFn(fr.g, f, []Value{r}, nil).(Tuple)
	s := t[0].(Slice)
	var b []*Term
	if s.len > 0 {
		b = m.sliceBytes(s)
	}
	return b, t[1].(Iface)
}

func compressNatives(n map[string]native) {
	alloc := func(fr *Frame, fn *ssa.Function, s *codecState) Ptr {
		p := new(Value)
		rt := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		*p = fr.m.zero(rt)
		fr.m.sideTab[p] = s
		return p
	}
	state := func(fr *Frame, v Value) *codecState {
		s, _ := fr.m.sideTab[fr.m.ptr(v)].(*codecState)
		if s == nil {
			panic(fr.m.unsupported("codec object without state"))
		}
		return s
	}
	newWriter := func(mk byte) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			return alloc(fr, fn, &codecState{marker: mk, w: a[0].(Iface)})
		}
	}
	write := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		s := state(fr, a[0])
		b := a[1].(Slice)
		if b.len > 0 {
			s.buf = append(s.buf, fr.m.sliceBytes(b)...)
		}
		return Tuple{fr.m.kInt(b.len), Iface{}}
	}
	closeW := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := state(fr, a[0])
		out := append([]*Term{m.c.K(uint64(s.marker), 8), m.c.K(uint64(len(s.buf)>>16), 8), m.c.K(uint64(len(s.buf)>>8), 8), m.c.K(uint64(len(s.buf)), 8)}, s.buf...)
		s.buf = nil
		r, _ := fr.callMethod(s.w, "Write", m.bytesSlice(out))
		return r.(Tuple)[1]
	}
	flush := func(fr *Frame, fn *ssa.Function, a []Value) Value { return Iface{} }
	// load parses [marker, len24, data...]; trailing bytes are ignored
	load := func(fr *Frame, s *codecState) bool {
		b, err := fr.readAll(s.src)
		s.loaded = true
		if err.t != nil {
			s.bad = true
			return false
		}
		if len(b) < 4 || !b[0].isC() || b[0].k != uint64(s.marker) || !b[1].isC() || !b[2].isC() || !b[3].isC() {
			s.bad = true
			return false
		}
		k := int(b[1].k<<16 | b[2].k<<8 | b[3].k)
		b = b[4:]
		if len(b) < k {
			s.r = b
			s.bad = true // truncated: data then ErrUnexpectedEOF
			return true
		}
		s.r = b[:k]
		return true
	}
	read := func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := state(fr, a[0])
		if !s.loaded {
			load(fr, s)
		}
		dst := a[1].(Slice)
		if s.pos >= len(s.r) {
			if s.bad {
				return Tuple{m.kInt(0), m.globalErr(fr.g, "io", "ErrUnexpectedEOF")}
			}
			return Tuple{m.kInt(0), m.globalErr(fr.g, "io", "EOF")}
		}
		k := min(dst.len, len(s.r)-s.pos)
		for i := 0; i < k; i++ {
			*m.slot(dst.arr, dst.off+i) = s.r[s.pos+i]
		}
		s.pos += k
		return Tuple{m.kInt(k), Iface{}}
	}
	n["compress/gzip.NewWriter"] = newWriter('G')
	n["compress/gzip.NewWriterLevel"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return Tuple{newWriter('G')(fr, fn, a), Iface{}}
	}
	resetW := func(mk byte) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			fr.m.sideTab[fr.m.ptr(a[0])] = &codecState{marker: mk, w: a[1].(Iface)}
			return nil
		}
	}
	n["(*compress/gzip.Writer).Reset"] = resetW('G')
	n["(*compress/gzip.Reader).Reset"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := &codecState{marker: 'G', src: a[1].(Iface)}
		m.sideTab[m.ptr(a[0])] = s
		if !load(fr, s) {
			return m.globalErr(fr.g, "compress/gzip", "ErrHeader")
		}
		return Iface{}
	}
	n["(*compress/gzip.Writer).Write"] = write
	n["(*compress/gzip.Writer).Close"] = closeW
	n["(*compress/gzip.Writer).Flush"] = flush
	n["compress/gzip.NewReader"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		m := fr.m
		s := &codecState{marker: 'G', src: a[0].(Iface)}
		if !load(fr, s) {
			return Tuple{Ptr(nil), m.globalErr(fr.g, "compress/gzip", "ErrHeader")}
		}
		return Tuple{alloc(fr, fn, s), Iface{}}
	}
	n["(*compress/gzip.Reader).Read"] = read
	n["(*compress/gzip.Reader).Close"] = flush
	n["(*compress/gzip.Reader).Multistream"] = nZero

	const lz = "github.com/pierrec/lz4/v4"
	n[lz+".NewWriter"] = newWriter('L')
	n["(*"+lz+".Writer).Reset"] = resetW('L')
	n["(*"+lz+".Reader).Reset"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		fr.m.sideTab[fr.m.ptr(a[0])] = &codecState{marker: 'L', src: a[1].(Iface)}
		return nil
	}
	n["(*"+lz+".Writer).Write"] = write
	n["(*"+lz+".Writer).Close"] = closeW
	n["(*"+lz+".Writer).Flush"] = flush
	n["(*"+lz+".Writer).Apply"] = flush
	n[lz+".NewReader"] = func(fr *Frame, fn *ssa.Function, a []Value) Value {
		return alloc(fr, fn, &codecState{marker: 'L', src: a[0].(Iface)})
	}
	n["(*"+lz+".Reader).Read"] = read

	enc := func(mk byte) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			s := a[len(a)-1].(Slice)
			var b []*Term
			if s.len > 0 {
				b = m.sliceBytes(s)
			}
			return m.bytesSlice(append([]*Term{m.c.K(uint64(mk), 8), m.c.K(uint64(len(b)>>16), 8), m.c.K(uint64(len(b)>>8), 8), m.c.K(uint64(len(b)), 8)}, b...))
		}
	}
	dec := func(mk byte) native {
		return func(fr *Frame, fn *ssa.Function, a []Value) Value {
			m := fr.m
			s := a[len(a)-1].(Slice)
			var b []*Term
			if s.len > 0 {
				b = m.sliceBytes(s)
			}
			if len(b) < 4 || !b[0].isC() || b[0].k != uint64(mk) || !b[1].isC() || !b[2].isC() || !b[3].isC() || int(b[1].k<<16|b[2].k<<8|b[3].k) > len(b)-4 {
				return Tuple{Slice{}, m.newErr(fr.g, "snappy: corrupt input")}
			}
			return Tuple{m.bytesSlice(b[4 : 4+int(b[1].k<<16|b[2].k<<8|b[3].k)]), Iface{}}
		}
	}
	n["github.com/eapache/go-xerial-snappy.Encode"] = enc('S')
	n["github.com/eapache/go-xerial-snappy.Decode"] = dec('S')
	n["github.com/golang/snappy.Encode"] = enc('S')
	n["github.com/golang/snappy.Decode"] = dec('S')
}
