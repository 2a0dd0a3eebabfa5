package engine

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const nilDeref = "runtime error: invalid memory address or nil pointer dereference"

func (in *interp) asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsupported("expected a number, have %v", descr(v))
	}
	return t
}

func descr(v Value) string {
	if p, ok := v.(*Poison); ok {
		return p.String()
	}
	return fmt.Sprintf("%T", v)
}

func (in *interp) load(addr Value) Value {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			in.gopanic(nilDeref)
		}
		if p, ok := (*a).(*Poison); ok && in.tol == 0 {
			unsupported("read of %s", p)
		}
		return copyVal(*a)
	case *SymPtr:
		if len(a.path) == 0 {
			return in.selectElem(a.elems, a.idx)
		}
		vs := make([]Value, len(a.elems))
		for i := range vs {
			vs[i] = *a.cell(i)
		}
		return in.selectElem(vs, a.idx)
	}
	unsupported("load through %v", descr(addr))
	return nil
}

func (in *interp) selectElem(elems []Value, idx *Term) Value {
	switch x := elems[0].(type) {
	case StructV:
		out := make(StructV, len(x))
		for f := range x {
			col := make([]Value, len(elems))
			for i := range elems {
				col[i] = elems[i].(StructV)[f]
			}
			out[f] = in.selectElem(col, idx)
		}
		return out
	case ArrayV:
		out := make(ArrayV, len(x))
		for f := range x {
			col := make([]Value, len(elems))
			for i := range elems {
				col[i] = elems[i].(ArrayV)[f]
			}
			out[f] = in.selectElem(col, idx)
		}
		return out
	}
	ts := make([]*Term, len(elems))
	for i, e := range elems {
		ts[i] = e.(*Term)
	}
	return in.c.Select(ts, idx)
}

func (in *interp) storeTo(addr Value, v Value) {
	switch a := addr.(type) {
	case *Value:
		if a == nil {
			in.gopanic(nilDeref)
		}
		in.store(a, v)
		return
	case *SymPtr:
		t := in.asTerm(v)
		for i := range a.elems {
			p := a.cell(i)
			old, ok := (*p).(*Term)
			if !ok {
				unsupported("store of %s to a symbolic element", descr(v))
			}
			in.setCell(p, in.c.Ite(in.c.Eq(a.idx, in.c.Const(a.idx.w, uint64(i))), t, old))
		}
		return
	}
	unsupported("store through %v", descr(addr))
}

// idx64 widens an index of Go type t to 64 bits.
func (in *interp) idx64(v Value, t types.Type) *Term {
	x := in.asTerm(v)
	if x.w == 64 {
		return x
	}
	if _, signed := width(t); signed {
		return in.c.Sext(x, 64)
	}
	return in.c.Zext(x, 64)
}

func (in *interp) boundsCheck(idx *Term, n int) {
	ok := in.c.Ult(idx, in.c.Const(64, uint64(n)))
	if !in.branch(ok) {
		in.gopanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

// allTerms: every element is built from numbers only.
func allTerms(e []Value) bool {
	for _, x := range e {
		switch y := x.(type) {
		case *Term:
		case StructV:
			if !allTerms(y) {
				return false
			}
		case ArrayV:
			if !allTerms(y) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (in *interp) noOpq(e []Value) {
	if in.st.opqLive && hasOpq(e) {
		unsupported("byte-level access to an opaque document or number")
	}
}

func (in *interp) indexAddr(x Value, iv Value, it types.Type) Value {
	idx := in.idx64(iv, it)
	var elems []Value
	switch a := x.(type) {
	case SliceV:
		elems = a
	case *Value:
		if a == nil {
			in.gopanic(nilDeref)
		}
		arr, ok := (*a).(ArrayV)
		if !ok {
			unsupported("index of %v", descr(*a))
		}
		elems = arr
	case *SymPtr:
		arr, ok := (*a.cell(0)).(ArrayV)
		if !ok {
			unsupported("index of a symbolic element")
		}
		in.boundsCheck(idx, len(arr))
		return a.sub(int(in.concInt(idx)))
	default:
		unsupported("index of %v", descr(x))
	}
	in.noOpq(elems)
	in.boundsCheck(idx, len(elems))
	if idx.op == OpConst {
		return &elems[idx.val]
	}
	if in.spec == 0 && !allTerms(elems) {
		return &elems[in.concInt(idx)]
	}
	if !allTerms(elems) {
		panic(abortSpec{})
	}
	return &SymPtr{elems, nil, idx}
}

func (in *interp) exec(fr *frame, ci *instr) {
	switch i := ci.i.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(i.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(i.Op, in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), i.X.Type(), i.Y.Type())
	case *ssa.UnOp:
		x := in.get(fr, &ci.ops[0])
		switch i.Op {
		case token.MUL:
			fr.regs[ci.dst] = in.load(x)
		case token.NOT, token.XOR:
			fr.regs[ci.dst] = in.c.Not(in.asTerm(x))
		case token.SUB:
			if isFloat(i.Type()) {
				t := in.asTerm(x)
				fr.regs[ci.dst] = in.c.Xor(t, in.c.Const(t.w, uint64(1)<<uint(t.w-1)))
			} else {
				fr.regs[ci.dst] = in.c.Neg(in.asTerm(x))
			}
		default:
			unsupported("unary %s", i.Op)
		}
	case *ssa.Call:
		fr.regs[ci.dst] = in.doCall(fr, ci, &i.Call)
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = in.get(fr, &ci.ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(in.get(fr, &ci.ops[0]), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(in.get(fr, &ci.ops[0]), i.X.Type(), i.Type())
	case *ssa.Defer:
		fn, args := in.prepCall(fr, ci, &i.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Extract:
		t, ok := in.get(fr, &ci.ops[0]).(TupleV)
		if !ok {
			unsupported("extract from %v", descr(in.get(fr, &ci.ops[0])))
		}
		fr.regs[ci.dst] = t[i.Index]
	case *ssa.Field:
		s, ok := in.get(fr, &ci.ops[0]).(StructV)
		if !ok {
			unsupported("field of %v", descr(in.get(fr, &ci.ops[0])))
		}
		fr.regs[ci.dst] = s[i.Field]
	case *ssa.FieldAddr:
		if sp, ok := in.get(fr, &ci.ops[0]).(*SymPtr); ok {
			fr.regs[ci.dst] = sp.sub(i.Field)
			break
		}
		a, ok := in.get(fr, &ci.ops[0]).(*Value)
		if !ok {
			unsupported("field address of %v", descr(in.get(fr, &ci.ops[0])))
		}
		if a == nil {
			in.gopanic(nilDeref)
		}
		s, ok := (*a).(StructV)
		if !ok {
			unsupported("field address in %v", descr(*a))
		}
		fr.regs[ci.dst] = &s[i.Field]
	case *ssa.Index:
		x := in.get(fr, &ci.ops[0])
		switch a := x.(type) {
		case ArrayV:
			idx := in.idx64(in.get(fr, &ci.ops[1]), i.Index.Type())
			in.boundsCheck(idx, len(a))
			if idx.op == OpConst {
				fr.regs[ci.dst] = a[idx.val]
			} else if allTerms(a) {
				fr.regs[ci.dst] = in.selectElem(a, idx)
			} else {
				fr.regs[ci.dst] = a[in.concInt(idx)]
			}
		case *Str:
			fr.regs[ci.dst] = in.strIndex(a, in.idx64(in.get(fr, &ci.ops[1]), i.Index.Type()))
		default:
			unsupported("index of %v", descr(x))
		}
	case *ssa.IndexAddr:
		fr.regs[ci.dst] = in.indexAddr(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]), i.Index.Type())
	case *ssa.Lookup:
		x := in.get(fr, &ci.ops[0])
		k := in.get(fr, &ci.ops[1])
		if s, ok := x.(*Str); ok {
			fr.regs[ci.dst] = in.strIndex(s, in.idx64(k, i.Index.Type()))
			break
		}
		m, ok := x.(*MapV)
		if !ok {
			unsupported("lookup in %v", descr(x))
		}
		pos := in.mapFind(m, k)
		var v Value
		if pos >= 0 {
			v = copyVal(m.vals[pos])
		} else {
			v = in.zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			fr.regs[ci.dst] = TupleV{v, in.c.Bool(pos >= 0)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for j := range env {
			env[j] = in.get(fr, &ci.ops[j+1])
		}
		fr.regs[ci.dst] = &FuncV{fn: i.Fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{T: i.X.Type(), V: in.get(fr, &ci.ops[0])}
	case *ssa.MakeMap:
		m := &MapV{idx: map[string]int{}}
		in.freshMaps[m] = true
		fr.regs[ci.dst] = m
	case *ssa.MakeSlice:
		n := in.idx64(in.get(fr, &ci.ops[0]), i.Len.Type())
		cp := in.idx64(in.get(fr, &ci.ops[1]), i.Cap.Type())
		fr.regs[ci.dst] = in.makeSlice(i.Type().Underlying().(*types.Slice).Elem(), n, cp)
	case *ssa.MapUpdate:
		m, ok := in.get(fr, &ci.ops[0]).(*MapV)
		if !ok {
			unsupported("map update on %v", descr(in.get(fr, &ci.ops[0])))
		}
		if m == nil {
			in.gopanic("assignment to entry in nil map")
		}
		in.mapSet(m, in.get(fr, &ci.ops[1]), in.get(fr, &ci.ops[2]))
	case *ssa.Next:
		fr.regs[ci.dst] = in.next(in.get(fr, &ci.ops[0]).(*IterV), i)
	case *ssa.Range:
		switch x := in.get(fr, &ci.ops[0]).(type) {
		case *MapV:
			fr.regs[ci.dst] = &IterV{m: x}
		case *Str:
			fr.regs[ci.dst] = &IterV{s: in.concStr(x)}
		default:
			unsupported("range over %v", descr(x))
		}
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice3(fr, ci, i)
	case *ssa.SliceToArrayPointer:
		s, ok := in.get(fr, &ci.ops[0]).(SliceV)
		if !ok {
			unsupported("slice to array pointer")
		}
		n := int(i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.gopanic("runtime error: cannot convert slice to array pointer: short slice")
		}
		p := new(Value)
		*p = ArrayV(s[:n:n])
		fr.regs[ci.dst] = p
	case *ssa.Store:
		in.storeTo(in.get(fr, &ci.ops[0]), in.get(fr, &ci.ops[1]))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(in.get(fr, &ci.ops[0]), i)
	default:
		unsupported("instruction %T", ci.i)
	}
}

func (in *interp) strIndex(s *Str, idx *Term) Value {
	if s.e != nil && idx.op == OpConst && idx.val < uint64(len(s.e)) && hasDoc(s) {
		i := int(idx.val)
		if !hasOpq(s.e[:i]) {
			if t, ok := s.e[i].(*Term); ok {
				return t
			}
			if f := docFirst(s.e[i : i+1]); f != 0 {
				return in.c.Const(8, uint64(f))
			}
		}
	}
	s = in.concStr(s)
	n := len(s.s)
	if s.e != nil {
		n = len(s.e)
	}
	in.boundsCheck(idx, n)
	if idx.op == OpConst {
		if s.e != nil {
			return s.e[idx.val]
		}
		return in.c.Const(8, uint64(s.s[idx.val]))
	}
	return in.selectElem(in.strElems(s), idx)
}

func (in *interp) makeSlice(et types.Type, n, cp *Term) Value {
	c := in.c
	lim := c.Const(64, 1<<24)
	if n.op != OpConst || n.val > 1<<24 {
		if !in.branch(c.Ult(n, lim)) {
			if in.branch(c.Slt(n, c.Const(64, 0))) {
				in.gopanic("runtime error: makeslice: len out of range")
			}
			unsupported("allocation of more than 16 Mi elements")
		}
	}
	ln := int(in.concInt(n))
	cn := ln
	if cp != n {
		if !in.branch(c.Ult(cp, lim)) {
			in.gopanic("runtime error: makeslice: cap out of range")
		}
		cn = int(in.concInt(cp))
	}
	if cn < ln {
		in.gopanic("runtime error: makeslice: cap out of range")
	}
	s := make(SliceV, cn)
	if cn > 0 {
		z := in.zero(et)
		_, isT := z.(*Term)
		for j := range s {
			if isT {
				s[j] = z
			} else {
				s[j] = in.zero(et)
			}
		}
	}
	in.p.steps += cn / 8
	return s[:ln]
}

func (in *interp) next(it *IterV, i *ssa.Next) Value {
	c := in.c
	if i.IsString {
		e := it.s
		n := len(e.s)
		if e.e != nil {
			n = len(e.e)
		}
		if it.pos >= n {
			return TupleV{c.False(), c.Const(64, 0), c.Const(32, 0)}
		}
		start := it.pos
		if e.e == nil {
			r, sz := utf8.DecodeRuneInString(e.s[it.pos:])
			it.pos += sz
			return TupleV{c.True(), c.Const(64, uint64(start)), c.Const(32, uint64(uint32(r)))}
		}
		b := e.e[it.pos].(*Term)
		if in.branch(c.Ult(b, c.Const(8, 0x80))) {
			it.pos++
			return TupleV{c.True(), c.Const(64, uint64(start)), c.Zext(b, 32)}
		}
		f := in.prog.Func("unicode/utf8", "DecodeRuneInString")
		t := in.callFn(f, []Value{mkStr(e.e[it.pos:])}, nil).(TupleV)
		it.pos += int(in.concInt(t[1].(*Term)))
		return TupleV{c.True(), c.Const(64, uint64(start)), t[0]}
	}
	if it.m == nil || it.pos >= len(it.m.keys) {
		tt := i.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return in.zero(t)
		}
		return TupleV{c.False(), z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	k, v := it.m.keys[it.pos], it.m.vals[it.pos]
	it.pos++
	return TupleV{c.True(), k, copyVal(v)}
}

func (in *interp) slice3(fr *frame, ci *instr, i *ssa.Slice) Value {
	x := in.get(fr, &ci.ops[0])
	var bound [3]*Term
	k := 1
	for j, v := range []ssa.Value{i.Low, i.High, i.Max} {
		_ = j
		if v != nil {
			bound[k-1] = in.idx64(in.get(fr, &ci.ops[k]), v.Type())
		}
		k++
	}
	var n, cp int
	var st *Str
	var sl []Value
	switch a := x.(type) {
	case *Str:
		st = in.concStr(a)
		n = len(st.s)
		if st.e != nil {
			n = len(st.e)
		}
		cp = n
	case SliceV:
		sl = a
		n, cp = len(a), cap(a)
		if (i.Low != nil || i.High != nil) && in.st.opqLive && hasOpq(a) {
			if !(bound[0] != nil && bound[0].IsConst() && bound[0].val == 0 && bound[1] == nil) {
				unsupported("slicing an opaque document")
			}
		}
	case *Value:
		if a == nil {
			in.gopanic(nilDeref)
		}
		arr, ok := (*a).(ArrayV)
		if !ok {
			unsupported("slice of %v", descr(*a))
		}
		sl = arr
		n, cp = len(arr), len(arr)
	default:
		unsupported("slice of %v", descr(x))
	}
	c := in.c
	lo, hi, mx := bound[0], bound[1], bound[2]
	if lo == nil {
		lo = c.Const(64, 0)
	}
	if hi == nil {
		hi = c.Const(64, uint64(n))
	}
	if mx == nil {
		mx = c.Const(64, uint64(cp))
	}
	ok := c.And(c.Ule(lo, hi), c.And(c.Ule(hi, mx), c.Ule(mx, c.Const(64, uint64(cp)))))
	if !in.branch(ok) {
		in.gopanic("runtime error: slice bounds out of range")
	}
	l, h, m := int(in.concInt(lo)), int(in.concInt(hi)), int(in.concInt(mx))
	if st != nil {
		if st.e != nil {
			return mkStr(st.e[l:h])
		}
		return str(st.s[l:h])
	}
	if sl == nil {
		return SliceV(nil)
	}
	return SliceV(sl[l:h:m])
}

type implKey struct{ a, b types.Type }

func (in *interp) implements(t types.Type, it *types.Interface) bool {
	key := implKey{t, it}
	if r, ok := in.implc[key]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.implc[key] = r
	return r
}

func (in *interp) typeAssert(x Value, i *ssa.TypeAssert) Value {
	itf, ok := x.(Iface)
	if !ok {
		unsupported("type assertion on %v", descr(x))
	}
	good := false
	var v Value
	if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		good = itf.T != nil && in.implements(itf.T, it)
		v = itf
		if !good {
			v = Iface{}
		}
	} else {
		good = itf.T != nil && in.identical(itf.T, i.AssertedType)
		if good {
			v = itf.V
		} else {
			v = in.zero(i.AssertedType)
		}
	}
	if i.CommaOk {
		return TupleV{v, in.c.Bool(good)}
	}
	if !good {
		in.gopanic(fmt.Sprintf("interface conversion: interface is %v, not %v", itf.T, i.AssertedType))
	}
	return v
}

// dataPtr is the address of the first element of a slice's or string's data.
type dataPtr struct{ s SliceV }

type mkey struct {
	t  types.Type
	id string
}

func (in *interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	key := mkey{t, m.Id()}
	if f, ok := in.methods[key]; ok {
		return f
	}
	f := in.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.methods[key] = f
	return f
}

// methodByName finds an exported method on t.
func (in *interp) methodByName(t types.Type, name string) *ssa.Function {
	key := mkey{t, "#" + name}
	if f, ok := in.methods[key]; ok {
		return f
	}
	var f *ssa.Function
	ms := in.prog.MethodSets.MethodSet(t)
	if sel := ms.Lookup(nil, name); sel != nil {
		f = in.prog.MethodValue(sel)
	}
	in.methods[key] = f
	return f
}

func (in *interp) prepCall(fr *frame, ci *instr, cc *ssa.CallCommon) (*FuncV, []Value) {
	v := in.get(fr, &ci.ops[0])
	if cc.IsInvoke() {
		itf, ok := v.(Iface)
		if !ok {
			unsupported("invoke on %v", descr(v))
		}
		if itf.T == nil {
			in.gopanic(nilDeref)
		}
		f := in.lookupMethod(itf.T, cc.Method)
		if f == nil {
			unsupported("no method %s on %s", cc.Method.Name(), itf.T)
		}
		args := make([]Value, 0, len(cc.Args)+1)
		args = append(args, itf.V)
		for k := range cc.Args {
			args = append(args, in.get(fr, &ci.ops[k+1]))
		}
		return &FuncV{fn: f}, args
	}
	f, ok := v.(*FuncV)
	if !ok {
		unsupported("call of %v", descr(v))
	}
	args := make([]Value, len(cc.Args))
	for k := range cc.Args {
		args[k] = in.get(fr, &ci.ops[k+1])
	}
	return f, args
}

func (in *interp) doCall(fr *frame, ci *instr, cc *ssa.CallCommon) Value {
	f, args := in.prepCall(fr, ci, cc)
	return in.callFunc(f, args, cc)
}

// ---- operators ----

func (in *interp) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	c := in.c
	switch op {
	case token.EQL:
		return in.eqVal(x, y)
	case token.NEQ:
		return c.Not(in.eqVal(x, y))
	}
	if sx, ok := x.(*Str); ok {
		sy, ok := y.(*Str)
		if !ok {
			unsupported("string operator on %v", descr(y))
		}
		switch op {
		case token.ADD:
			return in.concat(sx, sy)
		case token.LSS:
			return in.strLess(sx, sy)
		case token.GTR:
			return in.strLess(sy, sx)
		case token.LEQ:
			return c.Not(in.strLess(sy, sx))
		case token.GEQ:
			return c.Not(in.strLess(sx, sy))
		}
		unsupported("string operator %s", op)
	}
	a, b := in.asTerm(x), in.asTerm(y)
	if isFloat(xt) {
		w := a.w
		switch op {
		case token.ADD:
			return c.FOp(OpFAdd, w, a, b)
		case token.SUB:
			return c.FOp(OpFSub, w, a, b)
		case token.MUL:
			return c.FOp(OpFMul, w, a, b)
		case token.QUO:
			return c.FOp(OpFDiv, w, a, b)
		case token.LSS:
			return c.FOp(OpFLt, 1, a, b)
		case token.LEQ:
			return c.FOp(OpFLe, 1, a, b)
		case token.GTR:
			return c.FOp(OpFLt, 1, b, a)
		case token.GEQ:
			return c.FOp(OpFLe, 1, b, a)
		}
		unsupported("float operator %s", op)
	}
	_, signed := width(xt)
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		nz := c.Not(c.Eq(b, c.Const(b.w, 0)))
		if !in.branch(nz) {
			in.gopanic("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return c.SDiv(a, b)
		case op == token.QUO:
			return c.UDiv(a, b)
		case signed:
			return c.SRem(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		return c.And(a, b)
	case token.OR:
		return c.Or(a, b)
	case token.XOR:
		return c.Xor(a, b)
	case token.AND_NOT:
		return c.AndNot(a, b)
	case token.SHL, token.SHR:
		if _, ys := width(yt); ys && !(b.op == OpConst && b.SVal() >= 0) {
			if !in.branch(c.Not(c.Extract(b, b.w-1, b.w-1))) {
				in.gopanic("runtime error: negative shift amount")
			}
		}
		if op == token.SHL {
			return c.Shift(OpShl, a, b)
		}
		if signed {
			return c.Shift(OpAShr, a, b)
		}
		return c.Shift(OpLShr, a, b)
	case token.LSS:
		if signed {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.LEQ:
		if signed {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GTR:
		if signed {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.GEQ:
		if signed {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	unsupported("operator %s", op)
	return nil
}

func (in *interp) concat(a, b *Str) *Str {
	if a.e == nil && b.e == nil {
		return str(a.s + b.s)
	}
	if a.e == nil && a.s == "" {
		return b
	}
	if b.e == nil && b.s == "" {
		return a
	}
	ea, eb := in.strElems(a), in.strElems(b)
	e := make([]Value, 0, len(ea)+len(eb))
	e = append(e, ea...)
	e = append(e, eb...)
	return mkStr(e)
}

func (in *interp) strLess(a, b *Str) *Term {
	c := in.c
	a, b = in.concStr(a), in.concStr(b)
	if a.e == nil && b.e == nil {
		return c.Bool(a.s < b.s)
	}
	ea, eb := in.strElems(a), in.strElems(b)
	// lexicographic, from the end
	n := min(len(ea), len(eb))
	r := c.Bool(len(ea) < len(eb))
	for i := n - 1; i >= 0; i-- {
		x, y := ea[i].(*Term), eb[i].(*Term)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

func (in *interp) strLen(s *Str) int {
	s2 := in.concStr(s)
	if s2.e != nil {
		return len(s2.e)
	}
	return len(s2.s)
}

func (in *interp) bytesOf(s *Str) SliceV {
	e := in.strElems(s)
	out := make(SliceV, len(e))
	copy(out, e)
	return out
}

func (in *interp) strOf(b SliceV) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	e := make([]Value, len(b))
	copy(e, b)
	return mkStr(e)
}

func (in *interp) convert(x Value, from, to types.Type) Value {
	c := in.c
	fu, tu := from.Underlying(), to.Underlying()
	if isString(tu) {
		if isByteSlice(fu) {
			return in.strOf(x.(SliceV))
		}
		if isRuneSlice(fu) {
			out := emptyStr
			for _, r := range x.(SliceV) {
				out = in.concat(out, in.runeStr(in.asTerm(r)))
			}
			return out
		}
		if isInteger(fu) {
			t := in.asTerm(x)
			if _, s := width(fu); s {
				t = c.Sext(c.Trunc(t, min(t.w, 32)), 32)
			} else {
				t = c.Zext(c.Trunc(t, min(t.w, 32)), 32)
			}
			return in.runeStr(t)
		}
		if isString(fu) {
			return x
		}
	}
	if isString(fu) {
		if isByteSlice(tu) {
			return in.bytesOf(x.(*Str))
		}
		if isRuneSlice(tu) {
			out := SliceV{}
			it := &IterV{s: in.concStr(x.(*Str))}
			for {
				t := in.next(it, &ssa.Next{IsString: true}).(TupleV)
				if t[0].(*Term).IsFalse() {
					return out
				}
				out = append(out, t[2])
			}
		}
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		fw, fs := width(fb)
		tw, ts := width(tb)
		if fw == 0 || tw == 0 {
			unsupported("conversion %s to %s", from, to)
		}
		t := in.asTerm(x)
		switch {
		case isFloat(fb) && isFloat(tb):
			if fw == tw {
				return t
			}
			return c.FOp(OpFCvt, tw, t)
		case isFloat(fb):
			if ts {
				return c.Trunc(c.FOp(OpFToS, 64, t), tw)
			}
			return c.Trunc(c.FOp(OpFToU, 64, t), tw)
		case isFloat(tb):
			if fs {
				return c.FOp(OpFFromS, tw, t)
			}
			return c.FOp(OpFFromU, tw, t)
		}
		if tw <= t.w {
			return c.Trunc(t, tw)
		}
		if fs {
			return c.Sext(t, tw)
		}
		return c.Zext(t, tw)
	}
	if types.Identical(fu, tu) {
		return x
	}
	if _, ok := fu.(*types.Pointer); ok {
		if _, ok := tu.(*types.Pointer); ok {
			return x
		}
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

// runeStr is string(rune).
func (in *interp) runeStr(r *Term) *Str {
	c := in.c
	if r.op == OpConst {
		return str(string(rune(int32(r.val))))
	}
	k := func(v uint64) *Term { return c.Const(r.w, v) }
	b := func(hi, lo int, or uint64) Value {
		return c.Or(c.Zext(c.Extract(r, hi, lo), 8), c.Const(8, or))
	}
	if in.branch(c.Ult(r, k(0x80))) {
		return mkStr([]Value{c.Trunc(r, 8)})
	}
	if in.branch(c.Ult(r, k(0x800))) {
		return mkStr([]Value{b(10, 6, 0xC0), b(5, 0, 0x80)})
	}
	bad := c.Or(c.Ult(k(0x10FFFF), r), c.And(c.Ule(k(0xD800), r), c.Ule(r, k(0xDFFF))))
	if in.branch(bad) {
		return str("\uFFFD")
	}
	if in.branch(c.Ult(r, k(0x10000))) {
		return mkStr([]Value{b(15, 12, 0xE0), b(11, 6, 0x80), b(5, 0, 0x80)})
	}
	return mkStr([]Value{b(20, 18, 0xF0), b(17, 12, 0x80), b(11, 6, 0x80), b(5, 0, 0x80)})
}

// opqLen is the length of text with opaque parts: any length it could have.
func (in *interp) opqLen(e []Value) *Term {
	n := in.newVar("opaque.length", 64)
	in.assume(in.c.And(in.c.Ule(in.c.Const(64, uint64(len(e))), n), in.c.Ult(n, in.c.Const(64, 1<<24))))
	return n
}

// ---- builtins ----

func (in *interp) builtin(b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := in.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			if hasDoc(x) {
				return in.opqLen(x.e)
			}
			return c.Const(64, uint64(in.strLen(x)))
		case SliceV:
			if in.st.opqLive && hasOpq(x) {
				return in.opqLen(x)
			}
			return c.Const(64, uint64(len(x)))
		case ArrayV:
			return c.Const(64, uint64(len(x)))
		case *MapV:
			if x == nil {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(x.keys)))
		case *Value:
			if x == nil {
				return c.Const(64, 0)
			}
			if a, ok := (*x).(ArrayV); ok {
				return c.Const(64, uint64(len(a)))
			}
		}
		unsupported("len of %v", descr(args[0]))
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return c.Const(64, uint64(cap(x)))
		case ArrayV:
			return c.Const(64, uint64(len(x)))
		}
		unsupported("cap of %v", descr(args[0]))
	case "append":
		s, ok := args[0].(SliceV)
		if !ok {
			unsupported("append to %v", descr(args[0]))
		}
		var t []Value
		switch y := args[1].(type) {
		case SliceV:
			t = y
		case *Str:
			t = in.strElems(y)
		default:
			unsupported("append of %v", descr(args[1]))
		}
		if len(t) == 0 {
			return s
		}
		if len(s)+len(t) <= cap(s) {
			r := s[:len(s)+len(t)]
			tmp := make([]Value, len(t))
			copy(tmp, t)
			for i := range tmp {
				in.store(&r[len(s)+i], tmp[i])
			}
			return r
		}
		nc := len(s) + len(t)
		if cap(s) > 0 && nc < 2*cap(s) {
			nc = 2 * cap(s)
		} else if nc < 8 {
			nc = 8
		}
		r := make(SliceV, len(s)+len(t), nc)
		copy(r, s)
		for i := range t {
			r[len(s)+i] = copyVal(t[i])
		}
		// spare capacity must hold zero values
		if nc > len(r) {
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			ext := r[:nc]
			z := in.zero(et)
			_, isT := z.(*Term)
			for i := len(r); i < nc; i++ {
				if isT {
					ext[i] = z
				} else {
					ext[i] = in.zero(et)
				}
			}
		}
		return r
	case "copy":
		d := args[0].(SliceV)
		var t []Value
		switch y := args[1].(type) {
		case SliceV:
			t = y
		case *Str:
			t = in.strElems(y)
		}
		n := min(len(d), len(t))
		tmp := make([]Value, n)
		copy(tmp, t[:n])
		for i := 0; i < n; i++ {
			in.store(&d[i], tmp[i])
		}
		return c.Const(64, uint64(n))
	case "delete":
		if m := args[0].(*MapV); m != nil {
			in.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case SliceV:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				in.store(&x[i], in.zero(et))
			}
		default:
			unsupported("clear of a map")
		}
		return nil
	case "min", "max":
		r := args[0]
		_, signed := width(cc.Args[0].Type())
		for _, y := range args[1:] {
			a, b2 := in.asTerm(r), in.asTerm(y)
			if isFloat(cc.Args[0].Type()) {
				unsupported("float min/max")
			}
			var lt *Term
			if signed {
				lt = c.Slt(b2, a)
			} else {
				lt = c.Ult(b2, a)
			}
			if b.Name() == "max" {
				lt = c.Not(c.Or(lt, c.Eq(a, b2)))
			}
			r = c.Ite(lt, b2, a)
		}
		return r
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// in.fr is the deferred function's frame
		if in.fr != nil && in.fr.caller != nil && in.fr.caller.panicking {
			in.fr.caller.panicking = false
			v := in.fr.caller.panicVal
			if itf, ok := v.(Iface); ok {
				return itf
			}
			return Iface{T: types.Typ[types.String], V: str("panic")}
		}
		return Iface{}
	case "String": // unsafe.String
		n := int(in.concInt(in.asTerm(args[1])))
		switch p := args[0].(type) {
		case dataPtr:
			if in.frozen == nil {
				in.frozen = map[*Value]bool{}
			}
			for i := range p.s[:n] {
				in.frozen[&p.s[i]] = true
			}
			return in.strOf(SliceV(p.s[:n]))
		}
		if n == 0 {
			return emptyStr
		}
		unsupported("unsafe.String")
	case "SliceData":
		return dataPtr{args[0].(SliceV)}
	case "StringData":
		return dataPtr{in.bytesOf(args[0].(*Str))}
	case "Slice":
		if p, ok := args[0].(dataPtr); ok {
			return p.s[:in.concInt(in.asTerm(args[1]))]
		}
		unsupported("unsafe.Slice")
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.gopanic(nilDeref)
		}
		return args[0]
	}
	unsupported("builtin %s", b.Name())
	return nil
}
