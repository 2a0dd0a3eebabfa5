package engine

import "math/bits"

// Constraints which are linear over GF(2), such as a CRC being right, are
// solved by Gaussian elimination: CNF based solvers take exponential time.

// linMin is the number of linear equations from which elimination is used.
const linMin = 12

type linRow struct {
	v   []uint64 // columns
	rhs bool
}

func (r *linRow) get(i int) bool { return r.v[i>>6]>>(uint(i)&63)&1 == 1 }
func (r *linRow) add(o *linRow) {
	for i := range r.v {
		r.v[i] ^= o.v[i]
	}
	r.rhs = r.rhs != o.rhs
}
func (r *linRow) first() int {
	for i, x := range r.v {
		if x != 0 {
			return 64*i + bits.TrailingZeros64(x)
		}
	}
	return -1
}

// linear eliminates the linear equations among cs. It returns Unsat when they
// contradict each other, Sat and a model when it found one, and otherwise
// Unknown and an equisatisfiable set of constraints, with a function which
// extends a model of these to one of cs.
func (in *interp) linear(cs []*Term) (Result, Model, []*Term, func(Model) Model) {
	c := in.c
	orig := cs
	cs = in.freeDisequalities(cs)
	var eqs [][]Bit // equations: the xor of bits (with constants) is 0
	var rest []*Term
	for _, t := range cs {
		switch {
		case t.op == OpEq:
			for i := range t.args[0].bits {
				eqs = append(eqs, []Bit{c.bxor(t.args[0].bits[i], t.args[1].bits[i])})
			}
		case t.op == OpBits || t.op == OpVar:
			eqs = append(eqs, []Bit{c.bnot(t.bits[0])})
		default:
			rest = append(rest, t)
		}
	}
	if len(eqs) < linMin {
		return Unknown, nil, orig, nil
	}
	col := map[Bit]int{}
	var cols []Bit
	parts := make([][]Bit, len(eqs))
	negs := make([]bool, len(eqs))
	for i, e := range eqs {
		if e[0] <= 1 {
			if e[0] == 1 {
				return Unsat, nil, nil, nil
			}
			continue
		}
		var buf [1]Bit
		p, n := c.xorParts(e[0], buf[:0])
		parts[i], negs[i] = append([]Bit{}, p...), n
		for _, b := range p {
			if _, ok := col[b]; !ok {
				col[b] = len(cols)
				cols = append(cols, b)
			}
		}
	}
	// columns of variables which occur nowhere else come first, to be pivots
	shared := map[int]bool{}
	for _, t := range rest {
		for _, v := range c.Vars(t) {
			shared[v] = true
		}
	}
	for _, b := range cols {
		if a := c.bitNodes[b].atom; a.op != OpVar {
			for _, v := range c.Vars(a) {
				shared[v] = true
			}
		}
	}
	private := func(b Bit) bool {
		a := c.bitNodes[b].atom
		return a.op == OpVar && !shared[a.id]
	}
	var first, last []Bit
	for _, b := range cols {
		if private(b) {
			first = append(first, b)
		} else {
			last = append(last, b)
		}
	}
	cols = append(first, last...)
	for i, b := range cols {
		col[b] = i
	}
	n := (len(cols) + 63) / 64
	var rows []*linRow
	pivots := []int{}
	for i := range eqs {
		if parts[i] == nil {
			continue
		}
		r := &linRow{v: make([]uint64, n), rhs: negs[i]}
		for _, b := range parts[i] {
			k := col[b]
			r.v[k>>6] ^= 1 << (uint(k) & 63)
		}
		for j, o := range rows {
			if r.get(pivots[j]) {
				r.add(o)
			}
		}
		k := r.first()
		if k < 0 {
			if r.rhs {
				return Unsat, nil, nil, nil
			}
			continue
		}
		for _, o := range rows {
			if o.get(k) {
				o.add(r)
			}
		}
		rows = append(rows, r)
		pivots = append(pivots, k)
	}
	isPiv := map[int]bool{}
	for _, k := range pivots {
		isPiv[k] = true
	}
	// complete sets the bits of the pivots in m, or those of the private ones
	complete := func(m Model, all bool) {
		ev := c.NewEval(m)
		for j, r := range rows {
			if !all && pivots[j] >= len(first) {
				continue
			}
			v := r.rhs
			for w, x := range r.v {
				for ; x != 0; x &= x - 1 {
					k := 64*w + bits.TrailingZeros64(x)
					if k == pivots[j] {
						continue
					}
					nd := &c.bitNodes[cols[k]]
					var bit bool
					if nd.atom.op == OpVar {
						bit = m[nd.atom.id]>>uint(nd.idx)&1 == 1
					} else {
						bit = ev.Eval(nd.atom)>>uint(nd.idx)&1 == 1
					}
					if bit {
						v = !v
					}
				}
			}
			nd := &c.bitNodes[cols[pivots[j]]]
			m[nd.atom.id] &^= 1 << uint(nd.idx)
			if v {
				m[nd.atom.id] |= 1 << uint(nd.idx)
			}
		}
	}
	holds := func(m Model) Model {
		ev := c.NewEval(m)
		for _, t := range orig {
			if ev.Eval(t) != 1 {
				return nil
			}
		}
		out := Model{}
		for _, t := range orig {
			for _, id := range c.Vars(t) {
				out[id] = m[id]
			}
		}
		return out
	}
	// a solution near the current model
	allVars := true
	for _, k := range pivots {
		allVars = allVars && c.bitNodes[cols[k]].atom.op == OpVar
	}
	if allVars {
		m := Model{}
		for k, v := range in.p.model {
			m[k] = v
		}
		complete(m, true)
		if out := holds(m); out != nil {
			return Sat, out, nil, nil
		}
	}
	extend := func(sm Model) Model {
		m := Model{}
		for k, v := range in.p.model {
			m[k] = v
		}
		for k, v := range sm {
			m[k] = v
		}
		complete(m, false)
		return holds(m)
	}
	// the reduced equations
	for j, r := range rows {
		if pivots[j] < len(first) {
			continue // can be made true whatever the rest is
		}
		var parts []Bit
		for w, x := range r.v {
			for ; x != 0; x &= x - 1 {
				parts = append(parts, cols[64*w+bits.TrailingZeros64(x)])
			}
		}
		b := c.bxorAll(parts)
		if !r.rhs {
			b = c.bnot(b)
		}
		rest = append(rest, c.fromBits([]Bit{b}))
	}
	return Unknown, nil, rest, extend
}

// freeDisequalities replaces a disequality of terms by that of one bit of them,
// where that bit depends on a variable no other constraint mentions.
func (in *interp) freeDisequalities(cs []*Term) []*Term {
	c := in.c
	var uses map[int]int
	var out []*Term
	for i, t := range cs {
		if t.op != OpBits || t.w != 1 {
			continue
		}
		var tb [1]Bit
		tp, neg := c.xorParts(t.bits[0], tb[:0])
		if len(tp) != 1 || !neg || c.bitNodes[tp[0]].atom.op != OpEq {
			continue
		}
		eq := c.bitNodes[tp[0]].atom
		if uses == nil {
			uses = map[int]int{}
			for _, x := range cs {
				for _, v := range c.Vars(x) {
					uses[v]++
				}
			}
			out = append([]*Term(nil), cs...)
		}
		x, y := eq.args[0], eq.args[1]
		for k := range x.bits {
			b := c.bxor(x.bits[k], y.bits[k])
			if b <= 1 {
				continue
			}
			var buf [1]Bit
			p, _ := c.xorParts(b, buf[:0])
			free := false
			for _, q := range p {
				if a := c.bitNodes[q].atom; a.op == OpVar && uses[a.id] == 1 {
					free = true
				}
			}
			for _, q := range p { // not inside another part as well
				if a := c.bitNodes[q].atom; a.op != OpVar {
					free = false
				}
			}
			if free {
				out[i] = c.fromBits([]Bit{b})
				break
			}
		}
	}
	if out == nil {
		return cs
	}
	return out
}
