package engine

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the harnesses, the code under test and everything
// they import, built from source.
type Program struct {
	*ssa.Program
	pkgs map[string]*ssa.Package
	mu   sync.Mutex
}

// Load builds the program for the given package patterns.
func Load(dir string, env []string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Program: prog, pkgs: map[string]*ssa.Package{}}
	for _, k := range prog.AllPackages() {
		p.pkgs[k.Pkg.Path()] = k
	}
	return p, nil
}

func (p *Program) Func(pkg, name string) *ssa.Function {
	k := p.pkgs[pkg]
	if k == nil {
		unsupported("package %s is not loaded", pkg)
	}
	f := k.Func(name)
	if f == nil {
		unsupported("no function %s.%s", pkg, name)
	}
	return f
}

func (p *Program) Global(pkg, name string) *ssa.Global {
	k := p.pkgs[pkg]
	if k == nil {
		return nil
	}
	return k.Var(name)
}

func (p *Program) Type(pkg, name string) types.Type {
	k := p.pkgs[pkg]
	if k == nil {
		unsupported("package %s is not loaded", pkg)
	}
	t := k.Type(name)
	if t == nil {
		unsupported("no type %s.%s", pkg, name)
	}
	return t.Type()
}

// LookupMethod and MethodValue create wrappers lazily; go/ssa locks internally.

// MsgStat counts the checks of one assertion.
type MsgStat struct{ Checked int }

// Stats is what an exploration did.
type Stats struct {
	Obligations int
	Trivial     int
	SolverObl   int
	Branches    int
	Merges      int
	Quick       int
	Linear      int // decided by elimination
	CacheHits   int
	Msgs        map[string]*MsgStat
	Notes       map[string]int
	Fns         map[string]bool
	Stubs       map[string]int
	Reached     map[string]int
	opqLive     bool
}

func NewStats() *Stats {
	return &Stats{Msgs: map[string]*MsgStat{}, Notes: map[string]int{}, Fns: map[string]bool{}, Stubs: map[string]int{}, Reached: map[string]int{}}
}

func (s *Stats) msg(m string) *MsgStat {
	x := s.Msgs[m]
	if x == nil {
		x = &MsgStat{}
		s.Msgs[m] = x
	}
	return x
}
func (s *Stats) note(n string) { s.Notes[n]++ }
func (s *Stats) fn(n string)   { s.Fns[n] = true }
func (s *Stats) stub(n string) { s.Stubs[n]++ }

func (s *Stats) merge(o *Stats) {
	s.Obligations += o.Obligations
	s.Trivial += o.Trivial
	s.SolverObl += o.SolverObl
	s.Branches += o.Branches
	s.Merges += o.Merges
	s.Quick += o.Quick
	s.Linear += o.Linear
	s.CacheHits += o.CacheHits
	for k, v := range o.Msgs {
		s.msg(k).Checked += v.Checked
	}
	for k, v := range o.Notes {
		s.Notes[k] += v
	}
	for k := range o.Fns {
		s.Fns[k] = true
	}
	for k, v := range o.Stubs {
		s.Stubs[k] += v
	}
	for k, v := range o.Reached {
		s.Reached[k] += v
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
