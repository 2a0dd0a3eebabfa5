package engine

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/nd"
)

// UnderTest is the import path of the module whose code is checked.
const UnderTest = "github.com/Comcast/scte35-go"

func underTest(fr *frame) bool {
	return fr != nil && fr.info.fn.Pkg != nil && strings.HasPrefix(fr.info.fn.Pkg.Pkg.Path(), UnderTest)
}

// sharedMem is the memory which two runs of a function at the same time have in
// common: what its variables and the package variables of the code under test
// lead to.
type sharedMem struct {
	cells map[*Value]bool
	maps  map[*MapV]bool
}

func (in *interp) sharedWrite(v Value) {
	if in.tol > 0 {
		return
	}
	if in.spec > 0 {
		panic(abortSpec{})
	}
	if in.synced > 0 {
		in.shared.escape(v)
		return
	}
	in.assert(in.c.False(), nd.TogetherMsg)
}

func (in *interp) together(f *FuncV) {
	if in.spec > 0 {
		panic(abortSpec{})
	}
	m := &sharedMem{map[*Value]bool{}, map[*MapV]bool{}}
	for _, pkg := range in.prog.AllPackages() {
		if !strings.HasPrefix(pkg.Pkg.Path(), UnderTest) {
			continue
		}
		for _, x := range pkg.Members {
			if g, ok := x.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				m.mark(g.Type().Underlying().(*types.Pointer).Elem(), in.global(g))
			}
		}
	}
	for i, v := range f.env {
		m.walk(f.fn.FreeVars[i].Type(), v)
	}
	in.shared = m
	in.callFunc(f, nil, nil)
	in.shared = nil
	in.assert(in.c.True(), nd.TogetherMsg)
}

// mark notes the cell p of type t and what it leads to.
func (m *sharedMem) mark(t types.Type, p *Value) {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "sync/atomic", "log", "os", "time": // synchronised, or not changed
			return
		}
	}
	if m.cells[p] {
		return
	}
	m.cells[p] = true
	m.walk(t, *p)
}

func (m *sharedMem) walk(t types.Type, v Value) {
	switch x := v.(type) {
	case *Value:
		if pt, ok := t.Underlying().(*types.Pointer); ok && x != nil {
			m.mark(pt.Elem(), x)
		}
	case StructV:
		st, ok := t.Underlying().(*types.Struct)
		for i := range x {
			if ok && i < st.NumFields() {
				m.mark(st.Field(i).Type(), &x[i])
			}
		}
	case ArrayV:
		if at, ok := t.Underlying().(*types.Array); ok {
			for i := range x {
				m.mark(at.Elem(), &x[i])
			}
		}
	case SliceV:
		if st, ok := t.Underlying().(*types.Slice); ok {
			x = x[:cap(x)]
			for i := range x {
				m.mark(st.Elem(), &x[i])
			}
		}
	case Iface:
		if x.T != nil {
			m.walk(x.T, x.V)
		}
	case *FuncV:
		if x != nil && x.fn != nil {
			for i, e := range x.env {
				if i < len(x.fn.FreeVars) {
					m.walk(x.fn.FreeVars[i].Type(), e)
				}
			}
		}
	case *MapV:
		mt, ok := t.Underlying().(*types.Map)
		if x == nil || !ok || m.maps[x] {
			return
		}
		m.maps[x] = true
		for i := range x.keys {
			m.walk(mt.Key(), x.keys[i])
			m.walk(mt.Elem(), x.vals[i])
		}
	}
}

// escape notes everything v leads to, which other goroutines have got from now on.
func (m *sharedMem) escape(v Value) {
	switch x := v.(type) {
	case *Value:
		if x != nil && !m.cells[x] {
			m.cells[x] = true
			m.escape(*x)
		}
	case StructV:
		m.escapeCells(x)
	case ArrayV:
		m.escapeCells(x)
	case SliceV:
		m.escapeCells(x[:cap(x)])
	case Iface:
		if x.T != nil {
			m.escape(x.V)
		}
	case *MapV:
		if x != nil && !m.maps[x] {
			m.maps[x] = true
			for i := range x.keys {
				m.escape(x.keys[i])
				m.escape(x.vals[i])
			}
		}
	}
}

func (m *sharedMem) escapeCells(x []Value) {
	for i := range x {
		m.escape(&x[i])
	}
}

// syncMap is the content of the sync.Map at p.
func (in *interp) syncMap(p *Value) *MapV {
	if m := in.syncMaps[p]; m != nil {
		return m
	}
	if m := in.pathMaps[p]; m != nil {
		return m
	}
	m := &MapV{idx: map[string]int{}}
	if !in.journalOn {
		in.syncMaps[p] = m
		return m
	}
	if in.pathMaps == nil {
		in.pathMaps = map[*Value]*MapV{}
	}
	in.freshMaps[m] = true
	in.pathMaps[p] = m
	return m
}
