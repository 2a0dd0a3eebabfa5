package engine

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"time"
)

// slowQuery makes the engine report queries which take longer (SYMGO_SLOW).
var slowQuery, _ = time.ParseDuration(os.Getenv("SYMGO_SLOW"))

var traceForks = os.Getenv("SYMGO_FORKS") != ""

// Dec is one recorded decision of a path.
type Dec struct {
	K int8   // 0 branch, 1 choice, 2 value test (V == value?), 3 fixed value
	B bool   // taken side for 0 and 2
	V uint64 // value
}

// Item is a path still to be explored: decisions to replay and a model of the
// constraints they impose.
type Item struct {
	Pre   []Dec
	Model map[string]uint64
}

type cons struct {
	t    *Term
	vars []int
}

// path is the symbolic state of one execution.
type path struct {
	fixes int
	item  Item
	trace []Dec
	pc    []cons
	lits  map[int]bool // term id -> asserted value
	model Model
	names map[string]uint64
	ev    *evaluator
	// per path bookkeeping
	steps      int
	varCount   map[string]int
	order      []*Term // variables in creation order
	incomplete []string
	observes   []obsRec
	asserts    int
}

type obsRec struct {
	label string
	val   Value
}

type pathEnd struct{ why string } // panic value: stop the path quietly

func (in *interp) inPrefix() bool { return len(in.p.trace) < len(in.p.item.Pre) }

// newVar makes a fresh symbolic variable for this path.
func (in *interp) newVar(label string, w int) *Term {
	p := in.p
	n := p.varCount[label]
	p.varCount[label] = n + 1
	name := fmt.Sprintf("%s#%d", label, n)
	t := in.c.Var(fmt.Sprintf("%s/%d", name, w), w)
	p.order = append(p.order, t)
	if _, ok := p.model[t.id]; !ok {
		p.model[t.id] = p.names[t.name] & mask(w)
	}
	return t
}

func (in *interp) addPC(t *Term) {
	if t.op == OpConst {
		return
	}
	p := in.p
	if v, ok := p.lits[t.id]; ok && v {
		return
	}
	p.lits[t.id] = true
	n := in.c.Not(t)
	p.lits[n.id] = false
	// split conjunctions for better slicing
	if t.op == OpAnd && t.w == 1 {
		in.addPC(t.args[0])
		in.addPC(t.args[1])
		return
	}
	p.pc = append(p.pc, cons{t, in.c.Vars(t)})
}

func (in *interp) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if in.p.ev == nil {
		in.p.ev = in.c.NewEval(in.p.model)
	}
	return in.p.ev.Eval(t)
}

func (in *interp) setModel(m Model) {
	for k, v := range m {
		in.p.model[k] = v
	}
	in.p.ev = nil
}

// slice returns the constraints connected to t through shared variables.
func (in *interp) slice(t *Term) []*Term {
	p := in.p
	rel := map[int]bool{}
	for _, v := range in.c.Vars(t) {
		rel[v] = true
	}
	used := make([]bool, len(p.pc))
	out := []*Term{t}
	for changed := true; changed; {
		changed = false
		for i := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.pc[i].vars {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p.pc[i].t)
				for _, v := range p.pc[i].vars {
					rel[v] = true
				}
			}
		}
	}
	return out
}

type cacheEnt struct {
	r Result
	m Model
}

// sat decides path condition ∧ t.
func (in *interp) sat(t *Term) (Result, Model) {
	if t.op == OpConst {
		if t.val == 1 {
			return Sat, nil
		}
		return Unsat, nil
	}
	if v, ok := in.p.lits[t.id]; ok && !v {
		return Unsat, nil
	}
	cs := in.slice(t)
	if r, m, ok := in.smallSat(cs); ok {
		in.st.Quick++
		return r, m
	}
	ids := make([]int, len(cs))
	for i, x := range cs {
		ids[i] = x.id
	}
	sort.Ints(ids)
	var kb []byte
	for _, i := range ids {
		kb = append(kb, byte(i), byte(i>>8), byte(i>>16), byte(i>>24))
	}
	key := string(kb)
	if e, ok := in.qcache[key]; ok {
		in.st.CacheHits++
		return e.r, e.m
	}
	// the constraints on one small variable alone may contradict t already
	if vs := in.c.Vars(t); len(vs) == 1 {
		sub := []*Term{t}
		for i := range in.p.pc {
			if x := &in.p.pc[i]; len(x.vars) == 1 && x.vars[0] == vs[0] {
				sub = append(sub, x.t)
			}
		}
		if r, _, ok := in.smallSat(sub); ok && r == Unsat {
			in.st.Quick++
			return Unsat, nil
		}
	}
	// cheap attempt: flip around the current model
	if len(cs) == 1 {
		if m := in.quickSat(t); m != nil {
			in.st.Quick++
			in.qcache[key] = cacheEnt{Sat, m}
			return Sat, m
		}
	}
	if in.tol == 0 && in.ctl != nil && in.ctl.halt.Load() {
		panic(pathEnd{"deadline"})
	}
	t0 := time.Now()
	r, m, lcs, extend := in.linear(cs)
	if r == Unknown {
		r, m = Sat, Model{}
		if len(lcs) > 0 {
			r, m = in.solver.Check(in.c, lcs)
		}
		if r == Sat && extend != nil {
			if m = extend(m); m == nil {
				r, m = in.solver.Check(in.c, cs)
			}
		}
	} else {
		in.st.Linear++
	}
	if d := time.Since(t0); slowQuery > 0 && d > slowQuery {
		fmt.Fprintf(os.Stderr, "slow query %v result %d: %d constraints, in %s, choices %v: %.300s\n", d, r, len(cs), in.where(), in.choices(), t.String())
	}
	in.qcache[key] = cacheEnt{r, m}
	return r, m
}

// truthTable lists, for a term over one variable of at most 8 bits, the values
// which make it true.
type truthTable [4]uint64

func (in *interp) truth(t *Term, v *Term) *truthTable {
	if x, ok := in.tables[t.id]; ok {
		return x
	}
	x := &truthTable{}
	for i := uint64(0); i < 1<<uint(v.w); i++ {
		if in.c.NewEval(Model{v.id: i}).Eval(t) == 1 {
			x[i>>6] |= 1 << (i & 63)
		}
	}
	in.tables[t.id] = x
	return x
}

// smallSat decides constraints which all speak of one variable of at most 8
// bits.
func (in *interp) smallSat(cs []*Term) (Result, Model, bool) {
	id := -1
	for _, t := range cs {
		vs := in.c.Vars(t)
		if len(vs) != 1 || id >= 0 && vs[0] != id {
			return Unknown, nil, false
		}
		id = vs[0]
	}
	v := in.c.VarByID(id)
	if v == nil || v.w > 8 {
		return Unknown, nil, false
	}
	all := truthTable{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	for _, t := range cs {
		x := in.truth(t, v)
		for i := range all {
			all[i] &= x[i]
		}
	}
	for i, w := range all {
		if w != 0 {
			return Sat, Model{id: uint64(64*i + bits.TrailingZeros64(w))}, true
		}
	}
	return Unsat, nil, true
}

// quickSat handles constraints on variables nothing else mentions.
func (in *interp) quickSat(t *Term) Model {
	c := in.c
	vars := c.Vars(t)
	if len(vars) != 1 {
		return nil
	}
	var v *Term
	for _, x := range in.p.order {
		if x.id == vars[0] {
			v = x
		}
	}
	if v == nil {
		return nil
	}
	try := func(val uint64) Model {
		m := Model{v.id: val & mask(v.w)}
		if c.NewEval(m).Eval(t) == 1 {
			return m
		}
		return nil
	}
	cur := in.p.model[v.id]
	for _, val := range []uint64{cur, 0, 1, ^uint64(0), ^cur} {
		if m := try(val); m != nil {
			return m
		}
	}
	for i := 0; i < v.w; i++ {
		if m := try(cur ^ 1<<uint(i)); m != nil {
			return m
		}
	}
	if v.w <= 8 {
		for i := uint64(0); i < 1<<uint(v.w); i++ {
			if m := try(i); m != nil {
				return m
			}
		}
	}
	return nil
}

func (in *interp) childModel(m Model) map[string]uint64 {
	out := make(map[string]uint64, len(in.p.order)+4)
	for k, v := range in.p.names {
		out[k] = v
	}
	for _, t := range in.p.order {
		v := in.p.model[t.id]
		if x, ok := m[t.id]; ok {
			v = x
		}
		out[t.name] = v
	}
	return out
}

func (in *interp) enqueue(d Dec, m Model) {
	pre := make([]Dec, len(in.p.trace)+1)
	copy(pre, in.p.trace)
	pre[len(pre)-1] = d
	in.push(Item{Pre: pre, Model: in.childModel(m)})
}

func (in *interp) noteIncomplete(why string) {
	for _, x := range in.p.incomplete {
		if x == why {
			return
		}
	}
	in.p.incomplete = append(in.p.incomplete, why)
}

// branch decides a condition, forking when both sides are feasible.
func (in *interp) branch(cond *Term) bool {
	if cond.op == OpConst {
		return cond.val == 1
	}
	if v, ok := in.p.lits[cond.id]; ok {
		return v
	}
	if in.spec > 0 {
		panic(abortSpec{})
	}
	return in.decide(0, 0, cond)
}

func (in *interp) decide(k int8, val uint64, cond *Term) bool {
	p := in.p
	if in.inPrefix() {
		d := p.item.Pre[len(p.trace)]
		if d.K != k || d.V != val {
			panic(engineErr{fmt.Sprintf("replay diverged: decision %d is %+v, expected kind %d value %d", len(p.trace), d, k, val)})
		}
		p.trace = append(p.trace, d)
		if d.B {
			in.addPC(cond)
		} else {
			in.addPC(in.c.Not(cond))
		}
		return d.B
	}
	taken := in.eval(cond) == 1
	other := cond
	if taken {
		other = in.c.Not(cond)
	}
	r, m := in.sat(other)
	switch r {
	case Sat:
		in.enqueue(Dec{K: k, B: !taken, V: val}, m)
		if traceForks {
			fmt.Fprintf(os.Stderr, "fork in %s: %.200s\n", in.where(), cond.String())
		}
	case Unknown:
		in.noteIncomplete("solver gave no answer on a branch")
	}
	in.st.Branches++
	p.trace = append(p.trace, Dec{K: k, B: taken, V: val})
	if taken {
		in.addPC(cond)
	} else {
		in.addPC(in.c.Not(cond))
	}
	return taken
}

// choice forks n ways without constraints.
func (in *interp) choice(n int) int {
	p := in.p
	if n <= 1 {
		return 0
	}
	if in.inPrefix() {
		d := p.item.Pre[len(p.trace)]
		if d.K != 1 {
			panic(engineErr{"replay diverged at a choice"})
		}
		p.trace = append(p.trace, d)
		return int(d.V)
	}
	for i := n - 1; i >= 1; i-- {
		in.enqueue(Dec{K: 1, V: uint64(i)}, nil)
	}
	p.trace = append(p.trace, Dec{K: 1, V: 0})
	return 0
}

// concInt makes t concrete by forking over its feasible values.
func (in *interp) concInt(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if in.spec > 0 {
		panic(abortSpec{})
	}
	for n := 0; ; n++ {
		var v uint64
		if in.inPrefix() {
			d := in.p.item.Pre[len(in.p.trace)]
			v = d.V
		} else {
			v = in.eval(t)
			if n >= in.opt.MaxValues {
				in.noteIncomplete(fmt.Sprintf("more than %d values of one quantity", in.opt.MaxValues))
				return in.fixValue(t)
			}
		}
		if !in.inPrefix() || in.p.item.Pre[len(in.p.trace)].K == 2 {
			eq := in.c.Eq(t, in.c.Const(t.w, v))
			if eq.op == OpConst && eq.val == 1 {
				return v
			}
			if in.decide(2, v, eq) {
				return v
			}
			continue
		}
		return in.fixValue(t)
	}
}

// fixValue constrains t to its current value without exploring others.
func (in *interp) fixValue(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if activeBits(t) <= in.opt.EnumBits && !in.fixing {
		in.fixing = true
		v := in.concInt(t)
		in.fixing = false
		return v
	}
	p := in.p
	if in.inPrefix() {
		d := p.item.Pre[len(p.trace)]
		if d.K != 3 {
			panic(engineErr{"replay diverged at a fixed value"})
		}
		p.trace = append(p.trace, d)
		p.fixes++
		in.addPC(in.c.Eq(t, in.c.Const(t.w, d.V)))
		in.noteIncomplete("a quantity was fixed to one value in " + in.where())
		return d.V
	}
	if in.spec > 0 {
		panic(abortSpec{})
	}
	v := in.eval(t)
	eq := in.c.Eq(t, in.c.Const(t.w, v))
	if eq.IsTrue() {
		return v
	}
	in.noteIncomplete("a quantity was fixed to one value in " + in.where())
	// not all values, but the outermost ones as well
	if in.spec == 0 && p.fixes < 3 {
		p.fixes++
		m, tried := mask(t.w), map[uint64]bool{v: true}
		for _, w := range []uint64{0, m, m >> 1, m>>1 + 1, v ^ 1<<(t.w-1)} {
			if tried[w] {
				continue
			}
			tried[w] = true
			if r, md := in.sat(in.c.Eq(t, in.c.Const(t.w, w))); r == Sat {
				in.enqueue(Dec{K: 3, V: w}, md)
			}
		}
	}
	p.trace = append(p.trace, Dec{K: 3, V: v})
	in.addPC(eq)
	return v
}

// assume restricts the path.
func (in *interp) assume(cond *Term) {
	if cond.op == OpConst {
		if cond.val == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if in.inPrefix() {
		in.addPC(cond)
		return
	}
	if in.eval(cond) != 1 {
		r, m := in.sat(cond)
		if r == Unknown {
			in.noteIncomplete("solver gave no answer on an assumption")
		}
		if r != Sat {
			panic(pathEnd{"assume"})
		}
		in.setModel(m)
	}
	in.addPC(cond)
}

// assert checks that cond holds for every valuation of the path.
func (in *interp) assert(cond *Term, msg string) {
	in.p.asserts++
	if in.inPrefix() {
		in.addPC(cond)
		if cond.IsFalse() {
			panic(pathEnd{"assert"})
		}
		return
	}
	in.st.Obligations++
	in.st.msg(msg).Checked++
	if cond.IsTrue() {
		in.st.Trivial++
		return
	}
	var r Result
	var m Model
	if in.eval(cond) != 1 {
		r = Sat
	} else {
		r, m = in.sat(in.c.Not(cond))
		in.st.SolverObl++
	}
	switch r {
	case Unsat:
		return
	case Unknown:
		in.noteIncomplete("solver gave no answer on an assertion: " + msg)
		in.addPC(cond)
		return
	}
	in.candidate("assert", msg, m)
	if cond.IsFalse() {
		panic(pathEnd{"assert"})
	}
	// continue on the rest of the path
	in.assume(cond)
}

// candidate records a violating valuation for native replay.
func (in *interp) candidate(kind, msg string, m Model) {
	vals := map[string]uint64{}
	for k, v := range in.childModel(m) {
		vals[k] = v
	}
	in.report(Candidate{Kind: kind, Msg: msg, Vals: vals, Choices: in.choices()})
}

// choices lists the values of explicit harness choices, in order.
func (in *interp) choices() []int {
	var out []int
	for _, d := range in.p.trace {
		if d.K == 1 {
			out = append(out, int(d.V))
		}
	}
	return out
}

type engineErr struct{ msg string }

// Candidate is a possible violation found symbolically.
type Candidate struct {
	Kind    string
	Msg     string
	Vals    map[string]uint64
	Choices []int
	Harness string
}
