package engine

import (
	"math/rand"
	"testing"
	"time"
)

// random terms: folded evaluation must agree with the solver and with a
// reference evaluation done on plain integers.
func TestTermsRandom(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	c := NewCtx()
	s := NewSolver(5*time.Second, "z3-new", "-in")
	defer s.Close()
	for it := 0; it < 300; it++ {
		w := []int{1, 3, 8, 16, 33, 64}[r.Intn(6)]
		x, y := c.Var("x"+string(rune('a'+w)), w), c.Var("y"+string(rune('a'+w)), w)
		type pv struct {
			t *Term
			f func(a, b uint64) uint64
		}
		pool := []pv{{x, func(a, b uint64) uint64 { return a }}, {y, func(a, b uint64) uint64 { return b }}}
		for k := 0; k < 12; k++ {
			p, q := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
			kc := r.Uint64() & mask(w)
			if r.Intn(3) == 0 {
				q = pv{c.Const(w, kc), func(a, b uint64) uint64 { return kc }}
			}
			var n pv
			switch r.Intn(12) {
			case 0:
				n = pv{c.Add(p.t, q.t), func(a, b uint64) uint64 { return (p.f(a, b) + q.f(a, b)) & mask(w) }}
			case 1:
				n = pv{c.Sub(p.t, q.t), func(a, b uint64) uint64 { return (p.f(a, b) - q.f(a, b)) & mask(w) }}
			case 2:
				n = pv{c.Mul(p.t, q.t), func(a, b uint64) uint64 { return (p.f(a, b) * q.f(a, b)) & mask(w) }}
			case 3:
				n = pv{c.And(p.t, q.t), func(a, b uint64) uint64 { return p.f(a, b) & q.f(a, b) }}
			case 4:
				n = pv{c.Or(p.t, q.t), func(a, b uint64) uint64 { return p.f(a, b) | q.f(a, b) }}
			case 5:
				n = pv{c.Xor(p.t, q.t), func(a, b uint64) uint64 { return p.f(a, b) ^ q.f(a, b) }}
			case 6:
				n = pv{c.Ite(c.Ult(p.t, q.t), p.t, q.t), func(a, b uint64) uint64 { return min(p.f(a, b), q.f(a, b)) }}
			case 7:
				sh := r.Intn(w + 1)
				n = pv{c.Shift(OpShl, p.t, c.Const(8, uint64(sh))), func(a, b uint64) uint64 { return p.f(a, b) << sh & mask(w) }}
			case 8:
				n = pv{c.Shift(OpLShr, p.t, q.t), func(a, b uint64) uint64 { return p.f(a, b) >> q.f(a, b) }}
			case 9:
				n = pv{c.Ite(c.Slt(p.t, q.t), p.t, q.t), func(a, b uint64) uint64 {
					u, v := p.f(a, b), q.f(a, b)
					if signExt(u, w) < signExt(v, w) {
						return u
					}
					return v
				}}
			case 10:
				n = pv{c.Zext(c.Eq(p.t, q.t), w), func(a, b uint64) uint64 { return b2u(p.f(a, b) == q.f(a, b)) }}
			case 11:
				n = pv{c.Not(p.t), func(a, b uint64) uint64 { return ^p.f(a, b) & mask(w) }}
			}
			pool = append(pool, n)
		}
		top := pool[len(pool)-1]
		va, vb := r.Uint64()&mask(w), r.Uint64()&mask(w)
		got := c.NewEval(Model{x.id: va, y.id: vb}).Eval(top.t)
		if got != top.f(va, vb) {
			t.Fatalf("eval w=%d %s: got %x want %x", w, top.t, got, top.f(va, vb))
		}
		res, _ := s.Check(c, []*Term{c.Eq(x, c.Const(w, va)), c.Eq(y, c.Const(w, vb)), c.Not(c.Eq(top.t, c.Const(w, got)))})
		if res != Unsat {
			t.Fatalf("solver disagrees: %v %v", res, s.Errors)
		}
	}
	t.Log(s.Queries, s.Time)
}
