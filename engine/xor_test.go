package engine

import (
	"math/rand"
	"testing"
)

// The exclusive or of many bits, dense or sparse, is the parity of its parts.
func TestXorMany(t *testing.T) {
	c := NewCtx()
	rng := rand.New(rand.NewSource(1))
	var vars []Bit
	for i := 0; i < 60; i++ {
		x := c.Var("x"+string(rune('A'+i)), 64)
		vars = append(vars, x.bits...)
		for j := 0; j < i*10; j++ { // gaps
			c.bxor(vars[rng.Intn(len(vars))], vars[rng.Intn(len(vars))])
		}
	}
	parity := func(m map[Bit]bool, b Bit) bool {
		var buf [1]Bit
		l, neg := c.xorParts(b, buf[:0])
		for i, x := range l {
			if i > 0 && l[i-1] >= x {
				t.Fatal("parts out of order")
			}
			neg = neg != m[x]
		}
		return neg
	}
	for round := 0; round < 300; round++ {
		m := map[Bit]bool{}
		for _, v := range vars {
			m[v] = rng.Intn(2) == 1
		}
		pick := func() Bit {
			r := Bit(rng.Intn(2))
			for n := rng.Intn(200); n > 0; n-- {
				r = c.bxor(r, vars[rng.Intn(len(vars))])
			}
			return r
		}
		var bs []Bit
		want, step := false, Bit(0)
		for n := rng.Intn(9); n > 0; n-- {
			b := pick()
			bs = append(bs, b)
			want = want != parity(m, b)
			step = c.bxor(step, b)
		}
		got := c.bxorAll(bs)
		if parity(m, got) != want || got != step {
			t.Fatalf("round %d: %v, want %v (%d, %d)", round, parity(m, got), want, got, step)
		}
	}
}
