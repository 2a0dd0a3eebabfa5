package engine

// Functions of package strings on text that holds numbers whose digits are
// not known: what can be told without them.

import "strings"

// splitOpq cuts s at sep, at most n times if n >= 0. It is not ok when it
// depends on the digits, or when there are none.
func (in *interp) splitOpq(s, sep *Str, n int) (out []*Str, ok bool) {
	if s.e == nil || !hasOpq(s.e) || !sep.concrete() || len(sep.s) != 1 || sep.s[0] >= 0x80 || strings.Contains("0123456789-", sep.s) {
		return nil, false
	}
	for _, x := range s.e {
		if o, isOpq := x.(*Opq); isOpq && o.kind != "dec" {
			return nil, false
		}
	}
	var cur []Value
	b := in.c.Const(8, uint64(sep.s[0]))
	for _, x := range s.e {
		if t, isTerm := x.(*Term); isTerm && (n < 0 || len(out) < n) && in.branch(in.c.Eq(t, b)) {
			out = append(out, mkStr(cur))
			cur = nil
			continue
		}
		cur = append(cur, x)
	}
	return append(out, mkStr(cur)), true
}

func init() {
	I := func(n string, f intrinsic) { intrinsics[n] = f }
	I("strings.Join", func(in *interp, cc *callCtx, a []Value) Value {
		sep, opq := a[1].(*Str), false
		for _, x := range a[0].(SliceV) {
			s, ok := x.(*Str)
			if !ok {
				return declined{}
			}
			opq = opq || s.e != nil && hasOpq(s.e)
		}
		if !opq {
			return declined{}
		}
		out := str("")
		for i, x := range a[0].(SliceV) {
			if i > 0 {
				out = in.concat(out, sep)
			}
			out = in.concat(out, x.(*Str))
		}
		return out
	})
	split := func(in *interp, s, sep Value, n int) Value {
		parts, ok := in.splitOpq(s.(*Str), sep.(*Str), n)
		if !ok {
			return declined{}
		}
		out := SliceV{}
		for _, p := range parts {
			out = append(out, p)
		}
		return out
	}
	I("strings.Split", func(in *interp, cc *callCtx, a []Value) Value { return split(in, a[0], a[1], -1) })
	I("strings.SplitN", func(in *interp, cc *callCtx, a []Value) Value {
		n, ok := a[2].(*Term)
		if !ok || n.op != OpConst || int64(n.val) == 0 {
			return declined{}
		}
		return split(in, a[0], a[1], max(int(int64(n.val))-1, -1))
	})
	cut := func(in *interp, cc *callCtx, a []Value) Value {
		parts, ok := in.splitOpq(a[0].(*Str), a[1].(*Str), 1)
		if !ok {
			return declined{}
		}
		if len(parts) == 1 {
			return TupleV{parts[0], str(""), in.c.False()}
		}
		return TupleV{parts[0], parts[1], in.c.True()}
	}
	I("strings.Cut", cut)
	I("internal/stringslite.Cut", cut)
	I("strings.Contains", func(in *interp, cc *callCtx, a []Value) Value {
		parts, ok := in.splitOpq(a[0].(*Str), a[1].(*Str), 1)
		if !ok {
			return declined{}
		}
		return in.c.Bool(len(parts) > 1)
	})
	replace := func(in *interp, a []Value, n int) Value {
		parts, ok := in.splitOpq(a[0].(*Str), a[1].(*Str), n)
		if !ok {
			return declined{}
		}
		out := parts[0]
		for _, p := range parts[1:] {
			out = in.concat(in.concat(out, a[2].(*Str)), p)
		}
		return out
	}
	I("strings.ReplaceAll", func(in *interp, cc *callCtx, a []Value) Value { return replace(in, a, -1) })
	I("strings.Replace", func(in *interp, cc *callCtx, a []Value) Value {
		n, ok := a[3].(*Term)
		if !ok || n.op != OpConst {
			return declined{}
		}
		return replace(in, a, max(int(int64(n.val)), -1))
	})
	I("strings.HasSuffix", func(in *interp, cc *callCtx, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if s.e == nil || !hasOpq(s.e) || !p.concrete() || len(p.s) > len(s.e) {
			return declined{}
		}
		tail := s.e[len(s.e)-len(p.s):]
		if hasOpq(tail) {
			return declined{}
		}
		return in.strEq(mkStr(tail), p)
	})
	// letters of ASCII text change case without a path for each
	recase := func(in *interp, e []Value, lo, hi byte) ([]Value, bool) {
		ascii, known := in.c.True(), true
		for _, x := range e {
			switch y := x.(type) {
			case *Opq:
				if y.kind != "dec" {
					return nil, false
				}
				known = false
			case *Term:
				ascii = in.c.And(ascii, in.c.Ult(y, in.c.Const(8, 0x80)))
				known = known && y.op == OpConst
			default:
				return nil, false
			}
		}
		if known || !in.branch(ascii) {
			return nil, false
		}
		out := make([]Value, len(e))
		for i, x := range e {
			y, ok := x.(*Term)
			if !ok {
				out[i] = x
				continue
			}
			letter := in.c.And(in.c.Ule(in.c.Const(8, uint64(lo)), y), in.c.Ule(y, in.c.Const(8, uint64(hi))))
			out[i] = in.c.Ite(letter, in.c.Xor(y, in.c.Const(8, 0x20)), y)
		}
		return out, true
	}
	for _, x := range []struct {
		n      string
		lo, hi byte
	}{{"ToUpper", 'a', 'z'}, {"ToLower", 'A', 'Z'}} {
		I("strings."+x.n, func(in *interp, cc *callCtx, a []Value) Value {
			if s := a[0].(*Str); s.e != nil {
				if e, ok := recase(in, s.e, x.lo, x.hi); ok {
					return mkStr(e)
				}
			}
			return declined{}
		})
		I("bytes."+x.n, func(in *interp, cc *callCtx, a []Value) Value {
			if b, ok := a[0].(SliceV); ok {
				if e, ok := recase(in, b, x.lo, x.hi); ok {
					return in.bytesOf(mkStr(e))
				}
			}
			return declined{}
		})
	}
}
