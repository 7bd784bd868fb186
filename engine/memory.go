package main

import (
	"go/types"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// With vpMemory(1) the fields of structs that goroutines share are preemption points too, not only locks, channels and
// connections: a value that is used without the lock it needs may change between two uses. A struct counts as
// shared if it has a lock, a wait group, a channel or a context. Writing to a map takes two steps, between which every
// other access to it is the fatal error the Go runtime makes of it.

var sharedTab, ownFns sync.Map // *types.Named and *ssa.Function to bool

func sharedStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if r, ok := sharedTab.Load(n); ok {
		return r.(bool)
	}
	st, ok := n.Underlying().(*types.Struct)
	r := false
	if ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), healerPkg) && !strings.HasPrefix(n.Obj().Name(), "vp") {
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if p, ok := ft.(*types.Pointer); ok {
				ft = p.Elem()
			}
			if _, ok := ft.Underlying().(*types.Chan); ok {
				r = true
			}
			s := ft.String()
			r = r || strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "sync/atomic.") || s == "context.Context"
		}
	}
	sharedTab.Store(n, r)
	return r
}

// ownFn: a function of the code under test, not of a harness or a library
func (fr *Frame) ownFn() bool {
	fn := fr.fn
	if r, ok := ownFns.Load(fn); ok {
		return r.(bool)
	}
	r := false
	if p := fn.Prog.Fset.Position(fn.Pos()); p.IsValid() {
		r = strings.Contains(fn.String(), healerPkg) && !strings.HasPrefix(filepath.Base(p.Filename), "zz_vp")
	}
	ownFns.Store(fn, r)
	return r
}

func (fr *Frame) memYield(addr ssa.Value) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || !sharedStruct(pt.Elem()) || !fr.ownFn() {
		return
	}
	fr.m.yield(fr.g)
}

func (fr *Frame) mapRead(mv *MapV) {
	if mv != nil && mv.writer != nil && mv.writer != fr.g {
		panic(fr.m.tpanicStr("fatal error: concurrent map read and map write"))
	}
}

func (fr *Frame) mapWrite(mv *MapV) func() {
	if mv.writer != nil && mv.writer != fr.g {
		panic(fr.m.tpanicStr("fatal error: concurrent map writes"))
	}
	if !fr.m.memory || !fr.ownFn() {
		return func() {}
	}
	mv.writer = fr.g
	fr.m.yield(fr.g)
	return func() { mv.writer = nil }
}
