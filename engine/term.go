// Package engine is a bounded symbolic executor for Go SSA (golang.org/x/tools/go/ssa).
//
// term.go: hash-consed bit-vector terms (width 1..64; a Go bool is a width-1 term).
//
// Every term is also known as a vector of bits, each bit being a constant, one
// bit of an "atom" (a variable or a non-bitwise operation), or an exclusive-or
// of such bits. Shifts by constants, masks, concatenations and xors are folded
// at that level, so that bit readers/writers and CRC networks stay canonical.
// Everything else is kept word-level for the SMT solver.
package engine

import (
	"encoding/binary"
	"fmt"
	"math"
	mbits "math/bits"
	"slices"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpBits // vector of bits (concatenation / xor form)
	OpAnd
	OpOr
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	// IEEE floats; operands and results are the bit patterns (width 32 or 64)
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpFFromS // signed integer to float
	OpFFromU
	OpFToS // float to signed integer (truncating)
	OpFToU
	OpFCvt // 32 <-> 64
	OpFCeil
	OpFFloor
	OpFTrunc
	OpFRound // half away from zero
)

var opNames = map[Op]string{OpAnd: "bvand", OpOr: "bvor", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpEq: "="}

// Bit references: 0 = false, 1 = true, others index Ctx.bitNodes.
type Bit uint32

type bitNode struct {
	atom *Term // single bit of an atom
	idx  int
	xor  []Bit // sorted list of atom bits (len>=1), when atom == nil
	neg  bool
	next Bit // with the same hash
}

type Term struct {
	op   Op
	w    int
	args []*Term
	val  uint64
	name string
	id   int
	bits []Bit
	vars *varset // lazily computed
}

type varset struct{ ids []int }

// Ctx owns terms. Not safe for concurrent use: one per worker.
type Ctx struct {
	nextID   int
	consts   [65]map[uint64]*Term
	vars     map[string]*Term
	varList  []*Term
	varByID  map[int]*Term
	opTab    map[string]*Term
	bitsTab  map[string]*Term
	bitNodes []bitNode
	xorTab   map[uint64]Bit // first of a chain
	xorBuf   [2][]Bit
	xorLists [][]Bit
	xorSet   []uint64
	NoSimp   bool
	keyBuf   []byte
	lookups  map[int]bool  // terms which come from a lookup
	leafTab  map[int][]Bit // variable bits by term; more than maxLeaf when too many
}

func NewCtx() *Ctx {
	c := &Ctx{vars: map[string]*Term{}, opTab: map[string]*Term{}, bitsTab: map[string]*Term{}, xorTab: map[uint64]Bit{}, leafTab: map[int][]Bit{}, lookups: map[int]bool{}}
	c.bitNodes = make([]bitNode, 2)
	for i := range c.consts {
		c.consts[i] = map[uint64]*Term{}
	}
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *Term) W() int        { return t.w }
func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) Val() uint64   { return t.val }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 1 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 1 && t.val == 0 }
func (t *Term) SVal() int64   { return signExt(t.val, t.w) }

func signExt(v uint64, w int) int64 {
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Const(w int, v uint64) *Term {
	v &= mask(w)
	m := c.consts[w]
	if t, ok := m[v]; ok {
		return t
	}
	t := &Term{op: OpConst, w: w, val: v, id: c.id()}
	t.bits = make([]Bit, w)
	for i := 0; i < w; i++ {
		t.bits[i] = Bit((v >> uint(i)) & 1)
	}
	m[v] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.Const(1, 1)
	}
	return c.Const(1, 0)
}
func (c *Ctx) True() *Term  { return c.Const(1, 1) }
func (c *Ctx) False() *Term { return c.Const(1, 0) }

func (c *Ctx) id() int { c.nextID++; return c.nextID }

func (c *Ctx) Var(name string, w int) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, id: c.id()}
	c.vars[name] = t
	c.varList = append(c.varList, t)
	if c.varByID == nil {
		c.varByID = map[int]*Term{}
	}
	c.varByID[t.id] = t
	c.atomBits(t)
	return t
}

// VarByID returns the variable with this id.
func (c *Ctx) VarByID(id int) *Term { return c.varByID[id] }

func (c *Ctx) atomBits(t *Term) {
	t.bits = make([]Bit, t.w)
	for i := 0; i < t.w; i++ {
		c.bitNodes = append(c.bitNodes, bitNode{atom: t, idx: i})
		t.bits[i] = Bit(len(c.bitNodes) - 1)
	}
}

// atom interns a word-level operation.
func (c *Ctx) atom(op Op, w int, args ...*Term) *Term {
	b := c.keyBuf[:0]
	b = append(b, byte(op), byte(w))
	for _, a := range args {
		b = binary.LittleEndian.AppendUint32(b, uint32(a.id))
	}
	c.keyBuf = b
	if t, ok := c.opTab[string(b)]; ok {
		return t
	}
	t := &Term{op: op, w: w, args: append([]*Term(nil), args...), id: c.id()}
	c.opTab[string(b)] = t
	c.atomBits(t)
	return t
}

// fromBits interns a bit vector.
func (c *Ctx) fromBits(bits []Bit) *Term {
	w := len(bits)
	isConst := true
	var v uint64
	for i, b := range bits {
		if b > 1 {
			isConst = false
			break
		}
		v |= uint64(b) << uint(i)
	}
	if isConst {
		return c.Const(w, v)
	}
	n0 := &c.bitNodes[bits[0]]
	if n0.atom != nil && n0.idx == 0 && n0.atom.w == w {
		same := true
		for i, b := range bits {
			if n0.atom.bits[i] != b {
				same = false
				break
			}
		}
		if same {
			return n0.atom
		}
	}
	kb := c.keyBuf[:0]
	for _, b := range bits {
		kb = binary.LittleEndian.AppendUint32(kb, uint32(b))
	}
	c.keyBuf = kb
	if t, ok := c.bitsTab[string(kb)]; ok {
		return t
	}
	t := &Term{op: OpBits, w: w, bits: append([]Bit(nil), bits...), id: c.id()}
	c.bitsTab[string(kb)] = t
	return t
}

// ---- bit level ----

func (c *Ctx) xorParts(b Bit, buf []Bit) ([]Bit, bool) {
	if b <= 1 {
		return buf[:0], b == 1
	}
	n := &c.bitNodes[b]
	if n.atom != nil {
		return append(buf[:0], b), false
	}
	return n.xor, n.neg
}

func (c *Ctx) mkXor(list []Bit, neg bool) Bit {
	if len(list) == 0 {
		if neg {
			return 1
		}
		return 0
	}
	if len(list) == 1 && !neg {
		return list[0]
	}
	h := uint64(14695981039346656037)
	for _, b := range list {
		h = (h ^ uint64(b)) * 1099511628211
		h ^= h >> 29
	}
	if neg {
		h = ^h
	}
	first := c.xorTab[h]
	for r := first; r != 0; r = c.bitNodes[r].next {
		if n := &c.bitNodes[r]; n.neg == neg && slices.Equal(n.xor, list) {
			return r
		}
	}
	c.bitNodes = append(c.bitNodes, bitNode{xor: append([]Bit(nil), list...), neg: neg, next: first})
	r := Bit(len(c.bitNodes) - 1)
	c.xorTab[h] = r
	return r
}

// mergeXor appends the exclusive or of two ordered lists to out.
func mergeXor(out, la, lb []Bit) []Bit {
	i, j := 0, 0
	for i < len(la) && j < len(lb) {
		switch {
		case la[i] == lb[j]:
			i++
			j++
		case la[i] < lb[j]:
			out = append(out, la[i])
			i++
		default:
			out = append(out, lb[j])
			j++
		}
	}
	out = append(out, la[i:]...)
	return append(out, lb[j:]...)
}

func (c *Ctx) bxor(a, b Bit) Bit {
	if a == 0 {
		return b
	}
	if b == 0 {
		return a
	}
	if a == b {
		return 0
	}
	var ba, bb [1]Bit
	la, na := c.xorParts(a, ba[:0])
	lb, nb := c.xorParts(b, bb[:0])
	if len(la) > 0 && len(lb) > 0 && len(la)+len(lb) > 64 {
		c.xorLists = append(c.xorLists[:0], la, lb)
		c.xorBuf[0] = c.xorOf(c.xorLists, c.xorBuf[0][:0])
	} else {
		c.xorBuf[0] = mergeXor(c.xorBuf[0][:0], la, lb)
	}
	return c.mkXor(c.xorBuf[0], na != nb)
}

// xorOf appends the exclusive or of ordered lists, none empty, to out.
func (c *Ctx) xorOf(lists [][]Bit, out []Bit) []Bit {
	lo, hi, n := ^Bit(0), Bit(0), 0
	for _, l := range lists {
		lo, hi, n = min(lo, l[0]), max(hi, l[len(l)-1]), n+len(l)
	}
	lo &^= 63
	if words := int(hi-lo)/64 + 1; words <= n {
		if len(c.xorSet) < words {
			c.xorSet = make([]uint64, 2*words)
		}
		set := c.xorSet[:words]
		for _, l := range lists {
			for _, b := range l {
				b -= lo
				set[b/64] ^= 1 << (b % 64)
			}
		}
		for w, x := range set {
			base := lo + Bit(64*w)
			for ; x != 0; x &= x - 1 {
				out = append(out, base+Bit(mbits.TrailingZeros64(x)))
			}
			set[w] = 0
		}
		return out
	}
	next := c.xorBuf[1]
	for _, l := range lists {
		next = mergeXor(next[:0], out, l)
		out, next = next, out
	}
	c.xorBuf[1] = next
	return out
}

// bxorAll is the exclusive or of bits, without terms for what is in between.
func (c *Ctx) bxorAll(bs []Bit) Bit {
	neg := false
	lists := c.xorLists[:0]
	var ones []Bit
	for i, b := range bs {
		if b <= 1 {
			neg = neg != (b == 1)
			continue
		}
		n := &c.bitNodes[b]
		if n.atom != nil {
			if ones == nil {
				ones = make([]Bit, 0, len(bs)-i)
			}
			ones = append(ones, b)
			lists = append(lists, ones[len(ones)-1:])
			continue
		}
		neg = neg != n.neg
		lists = append(lists, n.xor)
	}
	c.xorLists = lists
	if len(lists) == 0 {
		return c.mkXor(nil, neg)
	}
	c.xorBuf[0] = c.xorOf(lists, c.xorBuf[0][:0])
	return c.mkXor(c.xorBuf[0], neg)
}

func (c *Ctx) bnot(a Bit) Bit {
	if a <= 1 {
		return 1 - a
	}
	return c.bxor(a, 1)
}

// band returns (result, true) when no new gate is needed.
func (c *Ctx) bandS(a, b Bit) (Bit, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == 1 {
		return b, true
	}
	if b == 1 || a == b {
		return a, true
	}
	if c.bnot(a) == b {
		return 0, true
	}
	return 0, false
}

func (c *Ctx) borS(a, b Bit) (Bit, bool) {
	if a == 1 || b == 1 {
		return 1, true
	}
	if a == 0 {
		return b, true
	}
	if b == 0 || a == b {
		return a, true
	}
	if c.bnot(a) == b {
		return 1, true
	}
	return 0, false
}

func (c *Ctx) biteS(s, a, b Bit) (Bit, bool) {
	if s == 1 || a == b {
		return a, true
	}
	if s == 0 {
		return b, true
	}
	if a == 1 && b == 0 {
		return s, true
	}
	if a == 0 && b == 1 {
		return c.bnot(s), true
	}
	if c.bxor(a, b) == 1 { // b = !a : s ? a : !a  == !(s^a)
		return c.bnot(c.bxor(s, a)), true
	}
	if a == s { // s ? s : b == s|b
		if r, ok := c.borS(s, b); ok {
			return r, true
		}
	}
	if b == 0 {
		return c.bandS(s, a)
	}
	if a == 1 {
		return c.borS(s, b)
	}
	return 0, false
}

// gateWise builds a result bit by bit with f; the positions f cannot resolve
// are packed in one word-level atom.
func (c *Ctx) gateWise(w int, f func(i int) (Bit, bool), mk func(pos []int) *Term) *Term {
	out := make([]Bit, w)
	var pos []int
	for i := 0; i < w; i++ {
		if b, ok := f(i); ok {
			out[i] = b
		} else {
			pos = append(pos, i)
		}
	}
	if len(pos) > 0 {
		t := mk(pos)
		for j, p := range pos {
			out[p] = t.bits[j]
		}
	}
	return c.fromBits(out)
}

func (c *Ctx) sel(t *Term, pos []int) *Term {
	bs := make([]Bit, len(pos))
	for j, p := range pos {
		bs[j] = t.bits[p]
	}
	return c.fromBits(bs)
}

// ---- word level constructors ----

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	return c.fromBits(t.bits[lo : hi+1])
}

func (c *Ctx) Trunc(t *Term, w int) *Term { return c.Extract(t, w-1, 0) }

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	bs := make([]Bit, w)
	copy(bs, t.bits)
	return c.fromBits(bs)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.w {
		return t
	}
	bs := make([]Bit, w)
	copy(bs, t.bits)
	for i := t.w; i < w; i++ {
		bs[i] = t.bits[t.w-1]
	}
	return c.fromBits(bs)
}

func (c *Ctx) Concat(hi, lo *Term) *Term {
	bs := make([]Bit, 0, hi.w+lo.w)
	bs = append(bs, lo.bits...)
	bs = append(bs, hi.bits...)
	return c.fromBits(bs)
}

func (c *Ctx) Xor(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.val^b.val)
	}
	bs := make([]Bit, a.w)
	for i := range bs {
		bs[i] = c.bxor(a.bits[i], b.bits[i])
	}
	return c.fromBits(bs)
}

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, ^a.val)
	}
	bs := make([]Bit, a.w)
	for i := range bs {
		bs[i] = c.bnot(a.bits[i])
	}
	return c.fromBits(bs)
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.val&b.val)
	}
	return c.gateWise(a.w, func(i int) (Bit, bool) { return c.bandS(a.bits[i], b.bits[i]) },
		func(pos []int) *Term {
			x, y := c.sel(a, pos), c.sel(b, pos)
			if x.id > y.id {
				x, y = y, x
			}
			return c.atom(OpAnd, len(pos), x, y)
		})
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.val|b.val)
	}
	return c.gateWise(a.w, func(i int) (Bit, bool) { return c.borS(a.bits[i], b.bits[i]) },
		func(pos []int) *Term {
			x, y := c.sel(a, pos), c.sel(b, pos)
			if x.id > y.id {
				x, y = y, x
			}
			return c.atom(OpOr, len(pos), x, y)
		})
}

func (c *Ctx) AndNot(a, b *Term) *Term { return c.And(a, c.Not(b)) }

// iteEq simplifies x == k ? a : b to b where b equals a when x is k.
func (c *Ctx) iteEq(s, a, b *Term) *Term {
	var buf [1]Bit
	l, neg := c.xorParts(s.bits[0], buf[:0])
	if len(l) != 1 {
		return nil
	}
	eq := c.bitNodes[l[0]].atom
	if eq == nil || eq.op != OpEq || eq.args[1].op != OpConst {
		return nil
	}
	if neg {
		a, b = b, a
	}
	x, k := eq.args[0], eq.args[1].val
	for i, y := range b.bits {
		z := a.bits[i]
		if y == z {
			continue
		}
		same := false
		for j, q := range x.bits {
			if q > 1 && q == y {
				same = Bit(k>>uint(j)&1) == z
				break
			}
		}
		if !same {
			return nil
		}
	}
	return b
}

func (c *Ctx) Ite(s, a, b *Term) *Term {
	if s.op == OpConst {
		if s.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if r := c.iteEq(s, a, b); r != nil {
		return r
	}
	// s ? b^K : b with constant K is linear in s
	lin := make([]Bit, a.w)
	ok := true
	for i := range lin {
		x := c.bxor(a.bits[i], b.bits[i])
		switch x {
		case 0:
			lin[i] = b.bits[i]
		case 1:
			lin[i] = c.bxor(b.bits[i], s.bits[0])
		default:
			ok = false
		}
		if !ok {
			break
		}
	}
	if ok {
		return c.fromBits(lin)
	}
	return c.gateWise(a.w, func(i int) (Bit, bool) { return c.biteS(s.bits[0], a.bits[i], b.bits[i]) },
		func(pos []int) *Term { return c.atom(OpIte, len(pos), s, c.sel(a, pos), c.sel(b, pos)) })
}

// activeBits returns the number of low bits that may be non-zero.
func activeBits(t *Term) int {
	n := t.w
	for n > 0 && t.bits[n-1] == 0 {
		n--
	}
	return n
}

func trailingZeros(t *Term) int {
	n := 0
	for n < t.w && t.bits[n] == 0 {
		n++
	}
	return n
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return c.Const(w, a.val+b.val)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst && b.val == 0 {
		return a
	}
	if a.op == OpConst && a.val == 0 {
		return b
	}
	// disjoint bits: no carries
	disj := true
	for i := range a.bits {
		if a.bits[i] != 0 && b.bits[i] != 0 {
			disj = false
			break
		}
	}
	if disj {
		return c.Or(a, b)
	}
	// (x + c1) + c2
	if b.op == OpConst && a.op == OpAdd && a.args[1].op == OpConst {
		return c.Add(a.args[0], c.Const(w, a.args[1].val+b.val))
	}
	// common trailing zeros in one operand: low bits copy through
	tz := trailingZeros(b)
	if z := trailingZeros(a); z > tz {
		a, b, tz = b, a, z
	}
	k := activeBits(a)
	if kb := activeBits(b); kb > k {
		k = kb
	}
	k++
	if k > w {
		k = w
	}
	if tz > 0 || k < w {
		hi := c.Extract(a, k-1, tz)
		hb := c.Extract(b, k-1, tz)
		var s *Term
		if k-tz < w {
			s = c.addAtom(hi, hb)
		}
		bs := make([]Bit, w)
		copy(bs, a.bits[:tz])
		copy(bs[tz:], s.bits)
		return c.fromBits(bs)
	}
	return c.addAtom(a, b)
}

func (c *Ctx) addAtom(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return c.Const(a.w, a.val+b.val)
	}
	if a.op == OpConst || (b.op != OpConst && a.id > b.id) {
		a, b = b, a
	}
	if a.w == 1 {
		return c.Xor(a, b)
	}
	if b.op == OpConst && b.val == 0 {
		return a
	}
	if b.op == OpConst && a.op == OpAdd && a.args[1].op == OpConst {
		return c.addAtom(a.args[0], c.Const(a.w, a.args[1].val+b.val))
	}
	return c.atom(OpAdd, a.w, a, b)
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OpConst {
		return c.Const(a.w, -a.val)
	}
	// -(0 or 1) = replicate the bit
	if activeBits(a) == 1 {
		bs := make([]Bit, a.w)
		for i := range bs {
			bs[i] = a.bits[0]
		}
		return c.fromBits(bs)
	}
	return c.Sub(c.Const(a.w, 0), a)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return c.Const(a.w, a.val-b.val)
		}
		return c.Add(a, c.Const(a.w, -b.val))
	}
	if a.op == OpConst && a.val == 0 && activeBits(b) == 1 {
		return c.Neg(b)
	}
	// (x + y) - y
	if a.op == OpAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return c.atom(OpSub, a.w, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		return c.Const(w, a.val*b.val)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if b.val == 0 {
			return b
		}
		if b.val&(b.val-1) == 0 {
			return c.ShlC(a, mbits.TrailingZeros64(b.val))
		}
	}
	k := activeBits(a) + activeBits(b)
	if k < w && k > 0 {
		return c.Zext(c.mulAtom(c.Trunc(a, k), c.Trunc(b, k)), w)
	}
	return c.mulAtom(a, b)
}

func (c *Ctx) mulAtom(a, b *Term) *Term {
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return c.atom(OpMul, a.w, a, b)
}

func (c *Ctx) UDiv(a, b *Term) *Term { // caller excludes b == 0
	w := a.w
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		return c.Const(w, a.val/b.val)
	}
	if b.op == OpConst {
		if b.val == 1 {
			return a
		}
		if b.val != 0 && b.val&(b.val-1) == 0 {
			return c.LShrC(a, mbits.TrailingZeros64(b.val))
		}
		if umax(a) < b.val {
			return c.Const(w, 0)
		}
	}
	k := activeBits(a)
	if kb := activeBits(b); kb > k {
		k = kb
	}
	if k < w && k > 0 {
		return c.Zext(c.atom(OpUDiv, k, c.Trunc(a, k), c.Trunc(b, k)), w)
	}
	return c.atom(OpUDiv, w, a, b)
}

func (c *Ctx) URem(a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		return c.Const(w, a.val%b.val)
	}
	if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
		return c.And(a, c.Const(w, b.val-1))
	}
	if b.op == OpConst && umax(a) < b.val {
		return a
	}
	k := activeBits(a)
	if kb := activeBits(b); kb > k {
		k = kb
	}
	if k < w && k > 0 {
		return c.Zext(c.atom(OpURem, k, c.Trunc(a, k), c.Trunc(b, k)), w)
	}
	return c.atom(OpURem, w, a, b)
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := a.SVal(), b.SVal()
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	if a.bits[a.w-1] == 0 && b.bits[b.w-1] == 0 {
		return c.UDiv(a, b)
	}
	return c.atom(OpSDiv, a.w, a, b)
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := a.SVal(), b.SVal()
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if a.bits[a.w-1] == 0 && b.bits[b.w-1] == 0 {
		return c.URem(a, b)
	}
	return c.atom(OpSRem, a.w, a, b)
}

func (c *Ctx) ShlC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(a.w, 0)
	}
	bs := make([]Bit, a.w)
	copy(bs[n:], a.bits[:a.w-n])
	return c.fromBits(bs)
}

func (c *Ctx) LShrC(a *Term, n int) *Term {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(a.w, 0)
	}
	bs := make([]Bit, a.w)
	copy(bs, a.bits[n:])
	return c.fromBits(bs)
}

func (c *Ctx) AShrC(a *Term, n int) *Term {
	if n >= a.w {
		n = a.w - 1
	}
	bs := make([]Bit, a.w)
	copy(bs, a.bits[n:])
	for i := a.w - n; i < a.w; i++ {
		bs[i] = a.bits[a.w-1]
	}
	return c.fromBits(bs)
}

// shift amount n is an unsigned value of any width; Go semantics (n >= w gives 0/sign).
func (c *Ctx) Shift(op Op, a, n *Term) *Term {
	if n.op == OpConst {
		k := a.w
		if n.val < uint64(a.w) {
			k = int(n.val)
		}
		switch op {
		case OpShl:
			return c.ShlC(a, k)
		case OpLShr:
			return c.LShrC(a, k)
		default:
			return c.AShrC(a, k)
		}
	}
	// normalise the amount to a.w bits, saturating
	var over *Term
	m := n
	if n.w > a.w {
		over = c.Ule(c.Const(n.w, uint64(a.w)), n)
		m = c.Trunc(n, a.w)
	} else if n.w < a.w {
		m = c.Zext(n, a.w)
	}
	// small number of possible amounts: mux of constant shifts
	r := c.atom(op, a.w, a, m)
	if over != nil {
		var sat *Term
		if op == OpAShr {
			sat = c.AShrC(a, a.w-1)
		} else {
			sat = c.Const(a.w, 0)
		}
		r = c.Ite(over, sat, r)
	}
	return r
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.val == b.val)
	}
	var pos []int
	for i := range a.bits {
		x, y := a.bits[i], b.bits[i]
		if x == y {
			continue
		}
		if c.bxor(x, y) == 1 {
			return c.False()
		}
		pos = append(pos, i)
	}
	if len(pos) == 0 {
		return c.True()
	}
	if len(pos) == 1 {
		return c.fromBits([]Bit{c.bnot(c.bxor(a.bits[pos[0]], b.bits[pos[0]]))})
	}
	if a.op == OpConst {
		a, b = b, a
	}
	// ite(s, k1, k2) == k
	if b.op == OpConst && a.op == OpIte {
		e1, e2 := c.Eq(a.args[1], b), c.Eq(a.args[2], b)
		if e1.IsConst() && e2.IsConst() {
			return c.Ite(a.args[0], e1, e2)
		}
	}
	// a == b as a^b == 0 where that cancels something
	if cost, sep := 0, 0; b.op != OpConst {
		d := make([]Bit, len(pos))
		for i, k := range pos {
			d[i] = c.bxor(a.bits[k], b.bits[k])
			cost += c.bitCost(d[i])
			sep += c.bitCost(a.bits[k]) + c.bitCost(b.bits[k])
		}
		if cost < sep {
			return c.Eq(c.fromBits(d), c.Const(len(d), 0))
		}
	}
	x, y := c.sel(a, pos), c.sel(b, pos)
	if x.op == OpConst || (y.op != OpConst && x.id > y.id) {
		x, y = y, x
	}
	return c.atom(OpEq, 1, x, y)
}

// bitCost is the number of atoms a bit is the xor of.
func (c *Ctx) bitCost(b Bit) int {
	if b <= 1 {
		return 0
	}
	if n := &c.bitNodes[b]; n.atom == nil {
		return len(n.xor)
	}
	return 1
}

func umax(t *Term) uint64 {
	var v uint64
	for i, b := range t.bits {
		if b != 0 {
			v |= uint64(1) << uint(i)
		}
	}
	return v
}
func umin(t *Term) uint64 {
	var v uint64
	for i, b := range t.bits {
		if b == 1 {
			v |= uint64(1) << uint(i)
		}
	}
	return v
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	if umax(a) < umin(b) {
		return c.True()
	}
	if umin(a) >= umax(b) {
		return c.False()
	}
	// drop equal leading bits
	k := a.w
	for k > 0 && a.bits[k-1] == b.bits[k-1] {
		k--
	}
	if k == 0 {
		return c.False()
	}
	if k < a.w {
		a, b = c.Trunc(a, k), c.Trunc(b, k)
	}
	if k == 1 {
		return c.And(c.Not(a), b)
	}
	// x < 2^j  <=> high bits zero;  2^j-1 < x
	if b.op == OpConst && b.val == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
		j := mbits.TrailingZeros64(b.val)
		return c.Eq(c.Extract(a, a.w-1, j), c.Const(a.w-j, 0))
	}
	if a.op == OpConst && a.val != mask(a.w) && a.val&(a.val+1) == 0 {
		j := mbits.TrailingZeros64(a.val + 1)
		return c.Not(c.Eq(c.Extract(b, b.w-1, j), c.Const(b.w-j, 0)))
	}
	return c.atom(OpUlt, 1, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	sa, sb := a.bits[a.w-1], b.bits[b.w-1]
	if sa == sb || (sa <= 1 && sb <= 1) {
		if sa == sb {
			return c.Ult(a, b)
		}
		return c.Bool(sa == 1)
	}
	if a.op == OpConst && b.op == OpConst {
		return c.Bool(a.SVal() < b.SVal())
	}
	if b.op == OpConst && b.val == 0 {
		return c.fromBits([]Bit{sa})
	}
	if a == b {
		return c.False()
	}
	return c.atom(OpSlt, 1, a, b)
}

func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// Select builds a mux over a table of equally wide terms.
func (c *Ctx) Select(elems []*Term, idx *Term) *Term {
	n := len(elems)
	if n == 0 {
		panic("Select on empty table")
	}
	w := elems[0].w
	allConst := true
	for _, e := range elems {
		if e.op != OpConst {
			allConst = false
			break
		}
	}
	k := activeBits(idx)
	if allConst && k <= 16 && n >= 1<<uint(k) {
		// GF(2)-affine table?
		base := elems[0].val
		cols := make([]uint64, k)
		for j := range cols {
			cols[j] = elems[1<<uint(j)].val ^ base
		}
		affine := true
		for i := 0; i < 1<<uint(k) && affine; i++ {
			v := base
			for j := 0; j < k; j++ {
				if i>>uint(j)&1 == 1 {
					v ^= cols[j]
				}
			}
			affine = v == elems[i].val
		}
		if affine {
			out := make([]Bit, w)
			var parts []Bit
			for b := 0; b < w; b++ {
				parts = append(parts[:0], Bit((base>>uint(b))&1))
				for j := 0; j < k; j++ {
					if cols[j]>>uint(b)&1 == 1 {
						parts = append(parts, idx.bits[j])
					}
				}
				out[b] = c.bxorAll(parts)
			}
			return c.fromBits(out)
		}
	}
	if allConst {
		if r := c.compose(elems, idx); r != nil {
			return r
		}
	}
	// binary mux on index bits (in-range is the caller's business)
	before := c.nextID
	mark := func(t *Term) {
		if t.id > before {
			c.lookups[t.id] = true
		}
		for _, b := range t.bits {
			if b <= 1 {
				continue
			}
			if n := &c.bitNodes[b]; n.atom != nil && n.atom.id > before {
				c.lookups[n.atom.id] = true
			} else if n.atom == nil {
				for _, x := range n.xor {
					if a := c.bitNodes[x].atom; a.id > before {
						c.lookups[a.id] = true
					}
				}
			}
		}
	}
	var rec func(lo, bit int) *Term
	rec = func(lo, bit int) *Term {
		if lo >= n {
			return nil
		}
		if bit < 0 {
			return elems[lo]
		}
		b := idx.bits[bit]
		if b <= 1 {
			return rec(lo|int(b)<<uint(bit), bit-1)
		}
		l := rec(lo, bit-1)
		h := rec(lo|1<<uint(bit), bit-1)
		if h == nil {
			return l
		}
		if l == nil {
			return h
		}
		t := c.Ite(c.fromBits([]Bit{b}), h, l)
		mark(t)
		return t
	}
	r := rec(0, k-1)
	if r == nil {
		return c.Const(w, 0)
	}
	return r
}

// maxLeaf bounds the variable bits a looked-up index may depend on for compose.
const (
	maxLeaf  = 20
	maxBasis = 8 // linearly independent ones
)

// leafBits is the set of variable bits (and exclusive-ors of them) which t depends on, or ok == false when
// there are more than maxLeaf.
func (c *Ctx) leafBits(t *Term, depth int) (out []Bit, ok bool) {
	if t.op == OpConst {
		return nil, true
	}
	if l, done := c.leafTab[t.id]; done {
		return l, len(l) <= maxLeaf
	}
	if depth > 200 {
		return nil, false
	}
	set := map[Bit]bool{}
	over := false
	add := func(u *Term) {
		l, ok := c.leafBits(u, depth+1)
		for _, b := range l {
			set[b] = true
		}
		if !ok || len(set) > maxLeaf {
			over = true
		}
	}
	switch t.op {
	case OpVar, OpBits:
		for _, b := range t.bits {
			if b <= 1 {
				continue
			}
			n := c.bitNodes[b]
			if n.atom != nil {
				if c.isLeaf(n.atom) {
					set[b] = true
				} else {
					add(n.atom)
				}
			} else {
				plain := true // an exclusive-or of leaves counts as one
				for _, x := range n.xor {
					if !c.isLeaf(c.bitNodes[x].atom) {
						plain = false
					}
				}
				if plain {
					if n.neg {
						b = c.bnot(b)
					}
					set[b] = true
				} else {
					for _, x := range n.xor {
						if y := c.bitNodes[x].atom; c.isLeaf(y) {
							set[x] = true
						} else {
							add(y)
						}
					}
				}
			}
			if over || len(set) > maxLeaf {
				over = true
				break
			}
		}
	default:
		for _, a := range t.args {
			add(a)
			if over {
				break
			}
		}
	}
	if over {
		out = make([]Bit, maxLeaf+1)
		c.leafTab[t.id] = out
		return out, false
	}
	for b := range set {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	c.leafTab[t.id] = out
	return out, true
}

// isLeaf reports whether the bits of an atom are not looked into by leafBits:
// those which do not come from a lookup, or depend on too much.
func (c *Ctx) isLeaf(t *Term) bool {
	if t.op == OpVar || !c.hasLookup(t) {
		return true
	}
	_, ok := c.leafBits(t, 100)
	return !ok
}

func (c *Ctx) hasLookup(t *Term) bool {
	if t.op == OpConst || t.op == OpVar {
		return false
	}
	if r, ok := c.lookups[t.id]; ok {
		return r
	}
	r := false
	if t.op == OpBits {
		for _, b := range t.bits {
			if b <= 1 {
				continue
			}
			n := c.bitNodes[b]
			if n.atom != nil {
				r = r || c.hasLookup(n.atom)
			} else {
				for _, x := range n.xor {
					r = r || c.hasLookup(c.bitNodes[x].atom)
				}
			}
			if r {
				break
			}
		}
	} else {
		for _, a := range t.args {
			if r = c.hasLookup(a); r {
				break
			}
		}
	}
	c.lookups[t.id] = r
	return r
}

// compose folds a lookup whose index is itself a function of a few variable bits
// (a table of a table) into one table over those bits; nil when it is not.
func (c *Ctx) compose(elems []*Term, idx *Term) *Term {
	leaves, ok := c.leafBits(idx, 0)
	if !ok || len(leaves) == 0 {
		return nil
	}
	// already in that form: each bit of the index another leaf
	direct := true
	isLeaf := map[Bit]bool{}
	for _, b := range leaves {
		isLeaf[b] = true
	}
	for _, b := range idx.bits[:activeBits(idx)] {
		if !isLeaf[b] {
			direct = false // a constant, a repeated leaf or something computed
		}
		delete(isLeaf, b)
	}
	if direct {
		return nil
	}
	basis, comb := c.leafBasis(leaves)
	if len(basis) > maxBasis {
		return nil
	}
	tab := make([]*Term, 1<<uint(len(basis)))
	for i := range tab {
		m := Model{}
		e := c.NewEval(m)
		e.over = map[Bit]uint64{}
		for j, b := range leaves {
			v := uint64(mbits.OnesCount(uint(i)&comb[j]) & 1)
			if n := &c.bitNodes[b]; n.atom != nil && n.atom.op == OpVar {
				m[n.atom.id] |= v << uint(n.idx)
			} else {
				e.over[b] = v
				e.over[c.bnot(b)] = 1 - v
			}
		}
		v := e.Eval(idx)
		if v < uint64(len(elems)) {
			tab[i] = elems[v]
		} else {
			tab[i] = c.Const(elems[0].w, 0) // excluded by the path condition
		}
	}
	return c.Select(tab, c.fromBits(basis))
}

// leafBasis picks linearly independent leaves and gives each leaf as the
// exclusive-or of some of them (bit j of comb[i]: basis[j] is part of leaf i).
func (c *Ctx) leafBasis(leaves []Bit) (basis []Bit, comb []uint) {
	type row struct {
		parts []Bit
		comb  uint
	}
	var rows []row // by leading part
	for _, b := range leaves {
		var buf [1]Bit
		l, _ := c.xorParts(b, buf[:0])
		p := append([]Bit{}, l...)
		var cm uint
		for _, r := range rows {
			if at := sort.Search(len(p), func(i int) bool { return p[i] >= r.parts[0] }); at < len(p) && p[at] == r.parts[0] {
				p = xorBits(p, r.parts)
				cm ^= r.comb
			}
		}
		if len(p) == 0 {
			comb = append(comb, cm)
			continue
		}
		me := uint(1) << uint(len(basis))
		basis = append(basis, b)
		comb = append(comb, me)
		rows = append(rows, row{p, cm ^ me})
	}
	return
}

func xorBits(a, b []Bit) []Bit {
	out := make([]Bit, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			i++
			j++
		}
	}
	return out
}

// ---- evaluation ----

type Model map[int]uint64 // var term id -> value

type evaluator struct {
	c    *Ctx
	m    Model
	memo map[int]uint64
	over map[Bit]uint64 // values of exclusive-ors taken as independent bits
}

func (c *Ctx) NewEval(m Model) *evaluator { return &evaluator{c: c, m: m, memo: map[int]uint64{}} }

func (e *evaluator) bit(b Bit) uint64 {
	if b <= 1 {
		return uint64(b)
	}
	if v, ok := e.over[b]; ok {
		return v
	}
	n := &e.c.bitNodes[b]
	if n.atom != nil {
		return e.Eval(n.atom) >> uint(n.idx) & 1
	}
	var v uint64
	if n.neg {
		v = 1
	}
	for _, x := range n.xor {
		y := &e.c.bitNodes[x]
		v ^= e.Eval(y.atom) >> uint(y.idx) & 1
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpVar:
		return e.m[t.id] & mask(t.w)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var v uint64
	if t.op == OpBits {
		for i, b := range t.bits {
			v |= e.bit(b) << uint(i)
		}
		e.memo[t.id] = v
		return v
	}
	a := make([]uint64, len(t.args))
	if t.op == OpIte {
		if e.Eval(t.args[0]) == 1 {
			v = e.Eval(t.args[1])
		} else {
			v = e.Eval(t.args[2])
		}
		e.memo[t.id] = v
		return v
	}
	for i, x := range t.args {
		a[i] = e.Eval(x)
	}
	aw := t.args[0].w
	switch t.op {
	case OpAnd:
		v = a[0] & a[1]
	case OpOr:
		v = a[0] | a[1]
	case OpAdd:
		v = a[0] + a[1]
	case OpSub:
		v = a[0] - a[1]
	case OpMul:
		v = a[0] * a[1]
	case OpUDiv:
		if a[1] == 0 {
			v = mask(t.w)
		} else {
			v = a[0] / a[1]
		}
	case OpURem:
		if a[1] == 0 {
			v = a[0]
		} else {
			v = a[0] % a[1]
		}
	case OpSDiv, OpSRem:
		x, y := signExt(a[0], aw), signExt(a[1], aw)
		switch {
		case y == 0:
			if t.op == OpSRem {
				v = uint64(x)
			} else if x < 0 {
				v = 1
			} else {
				v = ^uint64(0)
			}
		case y == -1:
			if t.op == OpSDiv {
				v = uint64(-x)
			}
		case t.op == OpSDiv:
			v = uint64(x / y)
		default:
			v = uint64(x % y)
		}
	case OpShl:
		if a[1] < uint64(aw) {
			v = a[0] << a[1]
		}
	case OpLShr:
		if a[1] < uint64(aw) {
			v = a[0] >> a[1]
		}
	case OpAShr:
		n := a[1]
		if n >= uint64(aw) {
			n = uint64(aw - 1)
		}
		v = uint64(signExt(a[0], aw) >> n)
	case OpEq:
		v = b2u(a[0] == a[1])
	case OpUlt:
		v = b2u(a[0] < a[1])
	case OpUle:
		v = b2u(a[0] <= a[1])
	case OpSlt:
		v = b2u(signExt(a[0], aw) < signExt(a[1], aw))
	case OpSle:
		v = b2u(signExt(a[0], aw) <= signExt(a[1], aw))
	default:
		v = evalFloat(t, a)
	}
	v &= mask(t.w)
	e.memo[t.id] = v
	return v
}

// Vars returns the ids of the variables t depends on (sorted).
func (c *Ctx) Vars(t *Term) []int {
	if t.vars != nil {
		return t.vars.ids
	}
	set := map[int]bool{}
	switch t.op {
	case OpConst:
	case OpVar:
		set[t.id] = true
	case OpBits:
		for _, b := range t.bits {
			if b <= 1 {
				continue
			}
			n := &c.bitNodes[b]
			if n.atom != nil {
				for _, v := range c.Vars(n.atom) {
					set[v] = true
				}
				continue
			}
			for _, x := range n.xor {
				for _, v := range c.Vars(c.bitNodes[x].atom) {
					set[v] = true
				}
			}
		}
	default:
		for _, a := range t.args {
			for _, v := range c.Vars(a) {
				set[v] = true
			}
		}
	}
	ids := make([]int, 0, len(set))
	for v := range set {
		ids = append(ids, v)
	}
	sort.Ints(ids)
	t.vars = &varset{ids}
	return ids
}

func (t *Term) String() string {
	switch t.op {
	case OpConst:
		return fmt.Sprintf("%#x:%d", t.val, t.w)
	case OpVar:
		return t.name
	case OpBits:
		return fmt.Sprintf("bits%d:%d", t.id, t.w)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opNames[t.op])
	if t.op == OpIte {
		sb.WriteString("ite")
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.String())
	}
	sb.WriteByte(')')
	return sb.String()
}

// ---- floats ----

func fget(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fput(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalFloat(t *Term, a []uint64) uint64 {
	aw := t.args[0].w
	switch t.op {
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		if t.w == 32 {
			x, y := math.Float32frombits(uint32(a[0])), math.Float32frombits(uint32(a[1]))
			var r float32
			switch t.op {
			case OpFAdd:
				r = x + y
			case OpFSub:
				r = x - y
			case OpFMul:
				r = x * y
			case OpFDiv:
				r = x / y
			}
			return uint64(math.Float32bits(r))
		}
		x, y := math.Float64frombits(a[0]), math.Float64frombits(a[1])
		var r float64
		switch t.op {
		case OpFAdd:
			r = x + y
		case OpFSub:
			r = x - y
		case OpFMul:
			r = x * y
		case OpFDiv:
			r = x / y
		}
		return math.Float64bits(r)
	case OpFLt:
		return b2u(fget(a[0], aw) < fget(a[1], aw))
	case OpFLe:
		return b2u(fget(a[0], aw) <= fget(a[1], aw))
	case OpFEq:
		return b2u(fget(a[0], aw) == fget(a[1], aw))
	case OpFFromS:
		x := signExt(a[0], aw)
		if t.w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OpFFromU:
		if t.w == 32 {
			return uint64(math.Float32bits(float32(a[0])))
		}
		return math.Float64bits(float64(a[0]))
	case OpFToS:
		return uint64(int64(fget(a[0], aw)))
	case OpFToU:
		return uint64(fget(a[0], aw))
	case OpFCvt:
		return fput(fget(a[0], aw), t.w)
	case OpFCeil:
		return fput(math.Ceil(fget(a[0], aw)), t.w)
	case OpFFloor:
		return fput(math.Floor(fget(a[0], aw)), t.w)
	case OpFTrunc:
		return fput(math.Trunc(fget(a[0], aw)), t.w)
	case OpFRound:
		return fput(math.Round(fget(a[0], aw)), t.w)
	}
	panic(fmt.Sprintf("eval: op %d", t.op))
}

// FOp builds a float operation, folding constants.
func (c *Ctx) FOp(op Op, w int, args ...*Term) *Term {
	t := &Term{op: op, w: w, args: args}
	cst := true
	for _, a := range args {
		cst = cst && a.op == OpConst
	}
	if cst {
		av := make([]uint64, len(args))
		for i, a := range args {
			av[i] = a.val
		}
		return c.Const(w, evalFloat(t, av))
	}
	return c.atom(op, w, args...)
}

// Reset drops everything but constants (their ids stay valid).
func (c *Ctx) Reset() {
	c.vars = map[string]*Term{}
	c.varList, c.varByID = nil, nil
	c.opTab = map[string]*Term{}
	c.bitsTab = map[string]*Term{}
	c.xorTab = map[uint64]Bit{}
	c.bitNodes = make([]bitNode, 2)
}

// Size is a rough measure of the memory held.
func (c *Ctx) Size() int { return len(c.bitNodes) + 8*len(c.opTab) + 32*len(c.bitsTab) }
