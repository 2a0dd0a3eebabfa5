package engine

import (
	"sort"
	"strings"

	"verif/nd"
)

const ndPkg = "verif/nd."

func init() {
	I := func(name string, f intrinsic) { intrinsics[ndPkg+name] = f }
	lab := func(v Value) string {
		s := v.(*Str)
		if !s.concrete() {
			unsupported("symbolic label")
		}
		return s.s
	}
	sized := func(w int) intrinsic {
		return func(in *interp, cc *callCtx, a []Value) Value { return in.newVar(lab(a[0]), w) }
	}
	I("U8", sized(8))
	I("U16", sized(16))
	I("U32", sized(32))
	I("U64", sized(64))
	I("Bool", sized(1))
	I("Bits", func(in *interp, cc *callCtx, a []Value) Value {
		return in.c.Zext(in.newVar(lab(a[0]), int(in.concInt(a[1].(*Term)))), 64)
	})
	I("Bytes", func(in *interp, cc *callCtx, a []Value) Value {
		n := int(in.concInt(a[1].(*Term)))
		s := make(SliceV, n)
		for i := range s {
			s[i] = in.newVar(lab(a[0]), 8)
		}
		return s
	})
	I("Text", func(in *interp, cc *callCtx, a []Value) Value {
		n := int(in.concInt(a[1].(*Term)))
		class := lab(a[2])
		e := make([]Value, n)
		for i := range e {
			t := in.newVar(lab(a[0]), 8)
			in.assume(in.inClass(t, class))
			e[i] = t
		}
		return mkStr(e)
	})
	I("InClass", func(in *interp, cc *callCtx, a []Value) Value {
		return in.inClass(a[0].(*Term), lab(a[1]))
	})
	I("Or", func(in *interp, cc *callCtx, a []Value) Value {
		return in.c.Or(a[0].(*Term), a[1].(*Term))
	})
	I("And", func(in *interp, cc *callCtx, a []Value) Value {
		return in.c.And(a[0].(*Term), a[1].(*Term))
	})
	I("Streams", func(in *interp, cc *callCtx, a []Value) Value {
		if in.spec > 0 {
			panic(abortSpec{})
		}
		in.stdin, in.stdout, in.stderr = append([]Value{}, in.strElems(a[0].(*Str))...), nil, nil
		in.callFunc(a[1].(*FuncV), nil, nil)
		return TupleV{mkStr(in.stdout), mkStr(in.stderr)}
	})
	I("Together", func(in *interp, cc *callCtx, a []Value) Value { in.together(a[0].(*FuncV)); return nil })
	I("Rows", func(in *interp, cc *callCtx, a []Value) Value {
		rows := SliceV{}
		var cur []Value
		is := func(v Value, b byte) bool {
			t, ok := v.(*Term)
			return ok && in.branch(in.c.Eq(t, in.c.Const(8, uint64(b))))
		}
		flush := func() {
			for i := 0; i+1 < len(cur); i++ {
				if is(cur[i], ':') && is(cur[i+1], ' ') {
					rows = append(rows, mkStr(cur))
					break
				}
			}
			cur = nil
		}
		for _, x := range in.strElems(a[0].(*Str)) {
			if o, ok := x.(*Opq); ok && o.kind != "dec" && o.kind != "hex" && o.kind != "b64" &&
				!(o.kind == "fmt" && (strings.HasPrefix(o.spec, "u|") || strings.HasPrefix(o.spec, "s|"))) {
				unsupported("rows of text with %s", o.kind)
			}
			switch {
			case is(x, '\n'):
				flush()
			case len(cur) == 0 && (is(x, '\t') || is(x, ' ')):
			default:
				cur = append(cur, x)
			}
		}
		flush()
		return rows
	})
	I("Labels", func(in *interp, cc *callCtx, a []Value) Value {
		lines := SliceV{}
		var cur []Value
		is := func(v Value, b byte) bool {
			t, ok := v.(*Term)
			return ok && in.branch(in.c.Eq(t, in.c.Const(8, uint64(b))))
		}
		flush := func() {
			for i := 0; i+1 < len(cur); i++ {
				if is(cur[i], ':') && is(cur[i+1], ' ') {
					cur = cur[:i]
					break
				}
			}
			lines = append(lines, mkStr(cur))
			cur = nil
		}
		for _, x := range in.strElems(a[0].(*Str)) {
			if o, ok := x.(*Opq); ok && o.kind != "dec" && o.kind != "hex" && o.kind != "b64" &&
				!(o.kind == "fmt" && (strings.HasPrefix(o.spec, "u|") || strings.HasPrefix(o.spec, "s|"))) {
				unsupported("lines of text with %s", o.kind)
			}
			if is(x, '\n') {
				flush()
			} else {
				cur = append(cur, x)
			}
		}
		flush()
		return lines
	})
	I("Misspelt", func(in *interp, cc *callCtx, a []Value) Value {
		n, ok := in.jParse(a[0].(SliceV))
		if !ok {
			return str("document")
		}
		known := strings.Fields(lab(a[1]))
		var walk func(n *jnode) string
		walk = func(n *jnode) string {
			var in2 []*jnode
			var bad []string
			for _, f := range n.f {
				if f.on == nil || in.branch(f.on) {
					in2 = append(in2, f.v)
					if nd.OtherCase(f.name, known) {
						bad = append(bad, f.name)
					}
				}
			}
			if len(bad) > 0 {
				sort.Strings(bad)
				return bad[0]
			}
			for _, x := range append(in2, n.e...) {
				if m := walk(x); m != "" {
					return m
				}
			}
			return ""
		}
		return str(walk(n))
	})
	I("Respell", func(in *interp, cc *callCtx, a []Value) Value {
		how := int(in.concInt(a[1].(*Term)))
		if how == nd.JSONReversed || how == nd.JSONExtended {
			n, ok := in.jParse(a[0].(SliceV))
			if !ok {
				return SliceV(nil)
			}
			return in.jBytes(&jdoc{root: respellJSON(n, how)})
		}
		n, perr := in.xParse(a[0].(SliceV))
		if perr != "" {
			return SliceV(nil)
		}
		return in.xBytes(&xdoc{roots: []*xnode{respellXML(n, how)}})
	})
	I("Among", func(in *interp, cc *callCtx, a []Value) Value {
		r := in.c.False()
		for _, x := range []byte(lab(a[1])) {
			r = in.c.Or(r, in.c.Eq(a[0].(*Term), in.c.Const(32, uint64(x))))
		}
		return r
	})
	I("Choice", func(in *interp, cc *callCtx, a []Value) Value {
		n := int(in.concInt(a[1].(*Term)))
		return in.c.Const(64, uint64(in.choice(n)))
	})
	I("Tier", func(in *interp, cc *callCtx, a []Value) Value { return in.c.Const(64, uint64(in.tier)) })
	I("Assume", func(in *interp, cc *callCtx, a []Value) Value { in.assume(a[0].(*Term)); return nil })
	I("Assert", func(in *interp, cc *callCtx, a []Value) Value { in.assert(a[0].(*Term), lab(a[1])); return nil })
	I("Fix", func(in *interp, cc *callCtx, a []Value) Value {
		return in.c.Const(64, in.concInt(a[0].(*Term)))
	})
	I("Reach", func(in *interp, cc *callCtx, a []Value) Value {
		if !in.inPrefix() {
			in.st.Reached[lab(a[0])]++
		}
		return nil
	})
	obs := func(in *interp, cc *callCtx, a []Value) Value {
		in.p.observes = append(in.p.observes, obsRec{lab(a[0]), a[1]})
		return nil
	}
	I("ObserveU", obs)
	I("ObserveS", obs)
}

func (in *interp) inClass(t *Term, class string) *Term {
	c := in.c
	k := func(b byte) *Term { return c.Const(8, uint64(b)) }
	rng := func(lo, hi byte) *Term { return c.And(c.Ule(k(lo), t), c.Ule(t, k(hi))) }
	ne := func(b byte) *Term { return c.Not(c.Eq(t, k(b))) }
	switch class {
	case "print":
		return rng(0x20, 0x7e)
	case "word":
		return rng(0x21, 0x7e)
	case "safe":
		r := rng(0x21, 0x7e)
		for _, b := range []byte("\"\\<>&'") {
			r = c.And(r, ne(b))
		}
		return r
	case "alnum":
		return c.Or(rng('0', '9'), c.Or(rng('A', 'Z'), rng('a', 'z')))
	case "hex":
		return c.Or(rng('0', '9'), rng('A', 'F'))
	case "digit":
		return rng('0', '9')
	}
	unsupported("character class %s", class)
	return nil
}

// respellJSON does what nd.Respell does.
func respellJSON(n *jnode, how int) *jnode {
	m := *n
	m.f, m.e = nil, nil
	for _, x := range n.e {
		m.e = append(m.e, respellJSON(x, how))
	}
	if n.k == '{' && how == nd.JSONExtended {
		m.f = append(m.f, jfield{name: nd.Foreign, v: &jnode{k: '{', f: []jfield{
			{name: "type", v: &jnode{k: '0', num: "3"}}, {name: "value", v: &jnode{k: '"', s: str("x")}}}}})
	}
	for i := range n.f {
		f := n.f[i]
		if how == nd.JSONReversed {
			f = n.f[len(n.f)-1-i]
		}
		f.v = respellJSON(f.v, how)
		m.f = append(m.f, f)
	}
	return &m
}

func respellXML(n *xnode, how int) *xnode {
	m := *n
	m.attrs, m.kids = nil, nil
	if how == nd.XMLExtended {
		m.attrs = append(m.attrs, xattr{local: nd.Foreign, val: str("3")})
	}
	for i := range n.attrs {
		if how == nd.XMLReversed {
			i = len(n.attrs) - 1 - i
		}
		m.attrs = append(m.attrs, n.attrs[i])
	}
	for _, k := range n.kids {
		if k.n != nil {
			k.n = respellXML(k.n, how)
		}
		m.kids = append(m.kids, k)
	}
	return &m
}
