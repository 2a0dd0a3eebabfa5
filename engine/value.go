package engine

import (
	"fmt"
	"go/types"
	"math"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (integers, bools, floats as bit patterns), *Str,
// *Value (address), *SymPtr, StructV, ArrayV, SliceV, Iface, *FuncV, *MapV,
// TupleV, *IterV, *Poison, nil (untyped zero for unsupported kinds).
type Value interface{}

type (
	StructV []Value
	ArrayV  []Value
	SliceV  []Value
	TupleV  []Value
)

// SymPtr is the address of an element selected by a symbolic in-range index.
// path leads from the element to the part addressed (field and array indices).
type SymPtr struct {
	elems []Value
	path  []int
	idx   *Term
}

// cell returns the addressed part of element i.
func (p *SymPtr) cell(i int) *Value {
	c := &p.elems[i]
	for _, f := range p.path {
		switch x := (*c).(type) {
		case StructV:
			c = &x[f]
		case ArrayV:
			c = &x[f]
		default:
			unsupported("symbolic element of %T", x)
		}
	}
	return c
}

func (p *SymPtr) sub(f int) *SymPtr {
	return &SymPtr{p.elems, append(append([]int(nil), p.path...), f), p.idx}
}

// Str is a string: concrete (e == nil) or a sequence of byte terms and opaque
// chunks.
type Str struct {
	s string
	e []Value
}

// Opq is a piece of text whose exact bytes are not spelled out: the decimal
// form of an integer, a formatted time, a JSON or XML document.
type Opq struct {
	kind string // "dec", "fmt", "time", "json", "xml", ...
	spec string
	args []*Term
	doc  interface{}
}

type Iface struct {
	T types.Type
	V Value
}

type FuncV struct {
	fn     *ssa.Function
	env    []Value
	bi     *ssa.Builtin
	native func(in *interp, args []Value) Value
}

type MapV struct {
	keys []Value
	vals []Value
	idx  map[string]int // concrete keys
}

type IterV struct {
	m   *MapV
	s   *Str
	pos int
	n   int
}

// Poison marks a value the engine could not compute (package initialisers).
type Poison struct{ why string }

func (p *Poison) String() string { return "poison(" + p.why + ")" }

func str(s string) *Str { return &Str{s: s} }

func (s *Str) concrete() bool { return s.e == nil }

// norm turns an all-constant element list into a concrete string.
func mkStr(e []Value) *Str {
	b := make([]byte, len(e))
	for i, x := range e {
		t, ok := x.(*Term)
		if !ok || t.op != OpConst {
			return &Str{e: e}
		}
		b[i] = byte(t.val)
	}
	return &Str{s: string(b)}
}

func (in *interp) strElems(s *Str) []Value {
	if s.e != nil {
		return s.e
	}
	e := make([]Value, len(s.s))
	for i := 0; i < len(s.s); i++ {
		e[i] = in.c.Const(8, uint64(s.s[i]))
	}
	return e
}

func hasOpq(e []Value) bool {
	for _, x := range e {
		if _, ok := x.(*Opq); ok {
			return true
		}
	}
	return false
}

func width(t types.Type) (int, bool) { // width, signed
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float64, types.UntypedFloat:
		return 64, true
	case types.Float32:
		return 32, true
	}
	return 0, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (in *interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		w, _ := width(u)
		if w == 0 {
			return &Poison{"zero of " + u.String()}
		}
		return in.c.Const(w, 0)
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return SliceV(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(StructV, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			unsupported("array of %d elements", n)
		}
		a := make(ArrayV, n)
		if n > 0 {
			z := in.zero(u.Elem())
			a[0] = z
			_, isT := z.(*Term)
			for i := 1; i < n; i++ {
				if isT {
					a[i] = z
				} else {
					a[i] = in.zero(u.Elem())
				}
			}
		}
		return a
	case *types.Chan:
		return (*Value)(nil)
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = in.zero(u.At(i).Type())
		}
		return tv
	}
	return &Poison{"zero of " + t.String()}
}

var emptyStr = &Str{}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		o := make(StructV, len(v))
		for i, x := range v {
			o[i] = copyVal(x)
		}
		return o
	case ArrayV:
		o := make(ArrayV, len(v))
		for i, x := range v {
			switch x.(type) {
			case StructV, ArrayV:
				o[i] = copyVal(x)
			default:
				o[i] = x
			}
		}
		return o
	}
	return v
}

type jent struct {
	p   *Value
	old Value
}

// setCell writes one cell, journalled so that a path can be undone.
func (in *interp) setCell(p *Value, v Value) {
	if in.shared != nil && in.shared.cells[p] {
		in.sharedWrite(v)
	}
	if len(in.frozen) > 0 && in.frozen[p] && in.spec == 0 {
		// The memory of a string made by unsafe.String: programs rely on
		// strings not changing.
		a, ok1 := (*p).(*Term)
		b, ok2 := v.(*Term)
		if ok1 && ok2 && a.w == b.w {
			in.assert(in.c.Eq(a, b), "the memory of a string does not change")
		}
	}
	if in.journalOn {
		in.journal = append(in.journal, jent{p, *p})
	}
	*p = v
}

// store assigns v to *p; aggregates are written element-wise in place so that
// addresses of their parts stay valid.
func (in *interp) store(p *Value, v Value) {
	switch x := v.(type) {
	case StructV:
		if d, ok := (*p).(StructV); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
		in.setCell(p, copyVal(v))
		return
	case ArrayV:
		if d, ok := (*p).(ArrayV); ok && len(d) == len(x) {
			if len(x) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
		in.setCell(p, copyVal(v))
		return
	}
	in.setCell(p, v)
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

// ---- equality ----

// eqVal returns a width-1 term for a == b on values of type t (t may be nil
// when unknown).
func (in *interp) eqVal(a, b Value) *Term {
	c := in.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			unsupported("compare %T with %T", a, b)
		}
		if x.w != y.w {
			unsupported("compare widths %d %d", x.w, y.w)
		}
		return c.Eq(x, y)
	case *Str:
		return in.strEq(x, b.(*Str))
	case *Value:
		switch y := b.(type) {
		case *Value:
			return c.Bool(x == y)
		case *SymPtr:
			return c.False()
		}
	case StructV:
		y := b.(StructV)
		r := c.True()
		for i := range x {
			r = c.And(r, in.eqVal(x[i], y[i]))
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		r := c.True()
		for i := range x {
			r = c.And(r, in.eqVal(x[i], y[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsupported("compare interface with %T", b)
		}
		if x.T == nil || y.T == nil {
			return c.Bool(x.T == nil && y.T == nil)
		}
		if !in.identical(x.T, y.T) {
			return c.False()
		}
		switch x.V.(type) {
		case SliceV, *MapV, *FuncV:
			in.gopanic(fmt.Sprintf("runtime error: comparing uncomparable type %s", x.T))
		}
		return in.eqVal(x.V, y.V)
	case SliceV: // only nil comparisons are legal
		y := b.(SliceV)
		return c.Bool(x == nil && y == nil)
	case *MapV:
		return c.Bool(x == b.(*MapV))
	case *FuncV:
		y := b.(*FuncV)
		return c.Bool(x == nil && y == nil)
	}
	unsupported("compare %T with %T", a, b)
	return nil
}

func (in *interp) strEq(a, b *Str) *Term {
	c := in.c
	if a.concrete() && b.concrete() {
		return c.Bool(a.s == b.s)
	}
	ea, eb := in.strElems(a), in.strElems(b)
	if !hasOpq(ea) && !hasOpq(eb) {
		if len(ea) != len(eb) {
			return c.False()
		}
		r := c.True()
		for i := range ea {
			r = c.And(r, c.Eq(ea[i].(*Term), eb[i].(*Term)))
			if r.IsFalse() {
				return r
			}
		}
		return r
	}
	// aligned comparison
	if len(ea) == len(eb) {
		r := c.True()
		ok := true
		for i := range ea {
			x, xo := ea[i].(*Opq)
			y, yo := eb[i].(*Opq)
			if !xo && !yo {
				r = c.And(r, c.Eq(ea[i].(*Term), eb[i].(*Term)))
				continue
			}
			if xo && yo {
				if x == y {
					continue
				}
				if x.doc != nil && y.doc != nil {
					if t := in.docEq(x.doc, y.doc); t != nil {
						r = c.And(r, t)
						continue
					}
				}
				if x.kind == "dec" && y.kind == "dec" && x.spec != y.spec {
					// a signed and an unsigned form agree on what is not negative
					r = c.And(r, c.And(c.Eq(x.args[0], y.args[0]), c.Not(c.Slt(x.args[0], c.Const(64, 0)))))
					continue
				}
				if x.kind == y.kind && x.spec == y.spec && x.doc == nil && y.doc == nil && len(x.args) == len(y.args) {
					same := true
					for j := range x.args {
						if x.args[j].w != y.args[j].w {
							same = false
						}
					}
					if same {
						for j := range x.args {
							r = c.And(r, c.Eq(x.args[j], y.args[j]))
						}
						continue
					}
				}
			}
			ok = false
			break
		}
		if ok {
			return r
		}
	}
	// quick refutation: literal prefix/suffix bytes that differ
	for i := 0; i < len(ea) && i < len(eb); i++ {
		x, ok1 := ea[i].(*Term)
		y, ok2 := eb[i].(*Term)
		if !ok1 || !ok2 {
			break
		}
		if c.Eq(x, y).IsFalse() {
			return c.False()
		}
	}
	// a JSON or XML document never equals a text that starts differently
	if f, lit := docFirst(ea[:min(1, len(ea))]), firstLit(eb); f != 0 && lit >= 0 && byte(lit) != f {
		return c.False()
	}
	if f, lit := docFirst(eb[:min(1, len(eb))]), firstLit(ea); f != 0 && lit >= 0 && byte(lit) != f {
		return c.False()
	}
	if a.concrete() && a.s == "" || b.concrete() && b.s == "" {
		return c.False() // opaque text is never empty
	}
	return in.strEq(in.concStr(a), in.concStr(b))
}

func docFirst(e []Value) byte {
	if len(e) != 1 {
		return 0
	}
	o, ok := e[0].(*Opq)
	if !ok {
		return 0
	}
	switch d := o.doc.(type) {
	case *jdoc:
		if d.prefix == "" {
			switch d.root.k {
			case '{', '[', '"', 'n':
				return d.root.k
			}
		}
	case *xdoc:
		if d.prefix == "" {
			return '<'
		}
	}
	return 0
}

func firstLit(e []Value) int {
	if len(e) == 0 {
		return 0
	}
	if t, ok := e[0].(*Term); ok && t.op == OpConst {
		return int(t.val)
	}
	return -1
}

// concStr spells out opaque chunks (fixing their arguments when necessary).
func (in *interp) concStr(s *Str) *Str {
	if s.e == nil || !hasOpq(s.e) {
		return s
	}
	var out []Value
	for _, x := range s.e {
		o, ok := x.(*Opq)
		if !ok {
			out = append(out, x)
			continue
		}
		if o.doc != nil {
			out = append(out, in.strElems(str(in.renderDoc(o, in.fixEval)))...)
			continue
		}
		if d := in.decDigits(o); d != nil {
			out = append(out, d...)
			continue
		}
		if d := in.hexDigits(o); d != nil {
			out = append(out, d...)
			continue
		}
		out = append(out, in.strElems(str(in.render(o)))...)
	}
	return mkStr(out)
}

// decDigits spells out the decimal form of a small number: the number of digits
// is decided by forking, the digits are terms.
func (in *interp) decDigits(o *Opq) []Value {
	if o.kind != "dec" {
		return nil
	}
	c := in.c
	if o.spec == "s" {
		a := o.args[0]
		for _, b := range a.bits[17:] {
			if b != a.bits[63] {
				return nil
			}
		}
		if in.branch(c.Slt(a, c.Const(64, 0))) {
			return append([]Value{c.Const(8, '-')}, in.smallDigits(c.Sub(c.Const(24, 0), c.Extract(a, 23, 0)))...)
		}
		return in.smallDigits(c.Extract(a, 23, 0))
	}
	if activeBits(o.args[0]) > 17 {
		return nil
	}
	return in.smallDigits(c.Extract(o.args[0], 23, 0))
}

var hexSpec = regexp.MustCompile(`^u\|%(#?)(?:0([1-9][0-9]?))?([xX])$`)

// hexDigits spells out a hexadecimal form likewise.
func (in *interp) hexDigits(o *Opq) []Value {
	if o.kind != "fmt" {
		return nil
	}
	m := hexSpec.FindStringSubmatch(o.spec)
	if m == nil {
		return nil
	}
	c, v := in.c, o.args[0]
	n := 1
	if m[2] != "" {
		n, _ = strconv.Atoi(m[2])
	}
	for n < 16 && !in.branch(c.Ult(v, c.Const(64, 1<<(4*n)))) {
		n++
	}
	var out []Value
	if m[1] != "" {
		out = append(out, c.Const(8, '0'), c.Const(8, uint64(m[3][0])))
	}
	for i := n - 1; i >= 0; i-- {
		d := c.Const(8, 0)
		if i < 16 {
			d = c.Zext(c.Extract(v, 4*i+3, 4*i), 8)
		}
		a := uint64(m[3][0]) - 'x' + 'a' - 10
		out = append(out, c.Ite(c.Ult(d, c.Const(8, 10)), c.Add(d, c.Const(8, '0')), c.Add(d, c.Const(8, a))))
	}
	return out
}

// smallDigits are the decimal digits of v, which is less than 2^17.
func (in *interp) smallDigits(v *Term) []Value {
	c := in.c
	n, lim := 1, uint64(10)
	for lim < 1<<17 && !in.branch(c.Ult(v, c.Const(24, lim))) {
		n, lim = n+1, lim*10
	}
	out := make([]Value, n)
	for i := n - 1; i >= 0; i-- {
		d := c.URem(v, c.Const(24, 10))
		v = c.UDiv(v, c.Const(24, 10))
		out[i] = c.Add(c.Extract(d, 7, 0), c.Const(8, '0'))
	}
	return out
}

// render gives the concrete text of an opaque chunk under the path's current
// valuation, constraining its arguments to those values.
func (in *interp) render(o *Opq) string {
	vals := make([]uint64, len(o.args))
	for i, a := range o.args {
		vals[i] = in.fixValue(a)
	}
	return renderOpq(o, vals)
}

func renderOpq(o *Opq, v []uint64) string {
	switch o.kind {
	case "dec":
		if o.spec == "s" {
			return strconv.FormatInt(signExt(v[0], o.args[0].w), 10)
		}
		return strconv.FormatUint(v[0], 10)
	case "fmt":
		// spec is "<kind>|<format>"
		k, f, _ := strings.Cut(o.spec, "|")
		switch k {
		case "u":
			return fmt.Sprintf(f, v[0])
		case "s":
			return fmt.Sprintf(f, signExt(v[0], o.args[0].w))
		case "f64":
			return fmt.Sprintf(f, math.Float64frombits(v[0]))
		case "f32":
			return fmt.Sprintf(f, math.Float32frombits(uint32(v[0])))
		}
	case "bool":
		return strconv.FormatBool(v[0] == 1)
	case "time":
		return renderTime(o.spec, int64(v[0]))
	}
	unsupported("rendering opaque text %s %s", o.kind, o.spec)
	return ""
}

// ---- maps ----

func (in *interp) mapKey(k Value) (string, bool) {
	switch x := k.(type) {
	case *Term:
		if x.op == OpConst {
			return "i" + strconv.FormatUint(x.val, 16) + ":" + strconv.Itoa(x.w), true
		}
	case *Str:
		if x.concrete() {
			return "s" + x.s, true
		}
	case Iface:
		if x.T == nil {
			return "nil", true
		}
		s, ok := in.mapKey(x.V)
		return "I" + types.TypeString(x.T, nil) + "/" + s, ok
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case StructV:
		var sb strings.Builder
		for _, f := range x {
			s, ok := in.mapKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return "S" + sb.String(), true
	case ArrayV:
		s, ok := in.mapKey(StructV(x))
		return "A" + s, ok
	}
	return "", false
}

// mapFind returns the position of key k or -1, forking when keys are symbolic.
func (in *interp) mapFind(m *MapV, k Value) int {
	if m == nil {
		return -1
	}
	if ks, ok := in.mapKey(k); ok {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if len(m.idx) == len(m.keys) {
			return -1
		}
	}
	for i, x := range m.keys {
		if x == nil {
			continue
		}
		if in.branch(in.eqVal(x, k)) {
			return i
		}
	}
	return -1
}

func (in *interp) mapSet(m *MapV, k, v Value) {
	if in.shared != nil && in.shared.maps[m] {
		in.sharedWrite(k)
		in.sharedWrite(v)
	}
	i := in.mapFind(m, k)
	if in.journalOn && !in.freshMaps[m] {
		// maps that existed before the path: take a private copy to restore
		in.mapUndo = append(in.mapUndo, mapUndo{m, append([]Value(nil), m.keys...), append([]Value(nil), m.vals...)})
		in.freshMaps[m] = true
	}
	if i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	if ks, ok := in.mapKey(k); ok {
		m.idx[ks] = len(m.keys) - 1
	}
}

func (in *interp) mapDelete(m *MapV, k Value) {
	if in.shared != nil && in.shared.maps[m] {
		in.sharedWrite(nil)
	}
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	if in.journalOn && !in.freshMaps[m] {
		unsupported("delete from a map of the initial heap")
	}
	m.keys = append(append([]Value(nil), m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]Value(nil), m.vals[:i]...), m.vals[i+1:]...)
	m.idx = map[string]int{}
	for j, x := range m.keys {
		if ks, ok := in.mapKey(x); ok {
			m.idx[ks] = j
		}
	}
}

type mapUndo struct {
	m    *MapV
	keys []Value
	vals []Value
}

func (in *interp) rollback() {
	for i := len(in.journal) - 1; i >= 0; i-- {
		*in.journal[i].p = in.journal[i].old
	}
	in.journal = in.journal[:0]
	for i := len(in.mapUndo) - 1; i >= 0; i-- {
		u := in.mapUndo[i]
		u.m.keys, u.m.vals = u.keys, u.vals
		u.m.idx = map[string]int{}
		for j, x := range u.keys {
			if ks, ok := in.mapKey(x); ok {
				u.m.idx[ks] = j
			}
		}
	}
	in.mapUndo = nil
	in.freshMaps = map[*MapV]bool{}
}

func (in *interp) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}
