package engine

import (
	"go/types"
	"reflect"
	"strings"
)

// Documents: encoding/json and encoding/xml work through reflection on text.
// Here the two codecs are modelled on document trees, driven by the struct
// types, field tags and custom (un)marshalling methods found in the program;
// the custom methods themselves are executed symbolically like any other code.
// A tree whose parts are all concrete is turned into its literal text.

func (in *interp) renderDoc(o *Opq, ev func(*Term) uint64) string {
	switch d := o.doc.(type) {
	case *jdoc:
		return in.renderJSON(d, ev)
	case *xdoc:
		return in.renderXML(d, ev)
	}
	unsupported("rendering a document")
	return ""
}

// fixEval evaluates terms while constraining the path to the values used.
func (in *interp) fixEval(t *Term) uint64 { return in.fixValue(t) }

// strEv gives the text of s under ev.
func (in *interp) strEv(s *Str, ev func(*Term) uint64) string {
	if s.e == nil {
		return s.s
	}
	var b []byte
	for _, x := range s.e {
		switch y := x.(type) {
		case *Term:
			b = append(b, byte(ev(y)))
		case *Opq:
			if y.doc != nil {
				b = append(b, in.renderDoc(y, ev)...)
				continue
			}
			v := make([]uint64, len(y.args))
			for i, a := range y.args {
				v[i] = ev(a)
			}
			b = append(b, renderOpq(y, v)...)
		}
	}
	return string(b)
}

func (in *interp) ptrType(t types.Type) types.Type {
	if p, ok := in.ptrs[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	in.ptrs[t] = p
	return p
}

// method finds a method by name with the given numbers of parameters and
// results.
func (in *interp) hasMethod(t types.Type, name string, np, nr int) bool {
	f := in.methodByName(t, name)
	return f != nil && f.Signature.Params().Len() == np && f.Signature.Results().Len() == nr
}

func (in *interp) callMethod(t types.Type, name string, args ...Value) Value {
	return in.callFn(in.methodByName(t, name), args, nil)
}

type fieldRef struct {
	name  string
	space string
	typ   types.Type
	idx   []int
	tag   string
	flags int
	// JSON options
	omitEmpty, omitZero, quoted bool
	tagged                      bool
}

// fieldCell walks an index path from a struct cell; nil when a nil embedded
// pointer is met (unless alloc).
func (in *interp) fieldCell(t types.Type, cell *Value, idx []int, alloc bool) *Value {
	for i, x := range idx {
		if i > 0 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				p, _ := (*cell).(*Value)
				if p == nil {
					if !alloc {
						return nil
					}
					p = new(Value)
					*p = in.zero(pt.Elem())
					in.setCell(cell, p)
				}
				cell, t = p, pt.Elem()
			}
		}
		s, ok := (*cell).(StructV)
		if !ok {
			unsupported("field of %v", descr(*cell))
		}
		t = t.Underlying().(*types.Struct).Field(x).Type()
		cell = &s[x]
	}
	return cell
}

func tagOf(s *types.Struct, i int, key string) string {
	return reflect.StructTag(s.Tag(i)).Get(key)
}

// isEmptyJ is the condition under which a value is "empty" (omitempty).
func (in *interp) isEmptyVal(t types.Type, v Value) *Term {
	c := in.c
	switch x := v.(type) {
	case *Term:
		if isFloat(t) {
			return c.Eq(c.Extract(x, x.w-2, 0), c.Const(x.w-1, 0))
		}
		return c.Eq(x, c.Const(x.w, 0))
	case *Str:
		if x.e != nil {
			return c.False()
		}
		return c.Bool(x.s == "")
	case SliceV:
		return c.Bool(len(x) == 0)
	case *MapV:
		return c.Bool(x == nil || len(x.keys) == 0)
	case *Value:
		return c.Bool(x == nil)
	case Iface:
		return c.Bool(x.T == nil)
	case ArrayV:
		return c.Bool(len(x) == 0)
	}
	return c.False()
}

// ---- types of encoding/xml fields ----

const (
	xfElement = 1 << iota
	xfAttr
	xfCDATA
	xfCharData
	xfInnerXML
	xfComment
	xfAny
	xfOmitEmpty
	xfMode = xfElement | xfAttr | xfCDATA | xfCharData | xfInnerXML | xfComment | xfAny
)

type xinfo struct {
	xmlname *fieldRef
	fields  []fieldRef
	err     string
}

func typeName(t types.Type) string {
	switch n := types.Unalias(t).(type) {
	case *types.Named:
		return n.Obj().Name()
	case *types.Basic:
		return n.Name()
	}
	return ""
}

func isXMLName(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Name" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml"
}

func isNamedType(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func (in *interp) xmlInfo(t types.Type) *xinfo {
	if x, ok := in.xinfos[t]; ok {
		return x
	}
	x := &xinfo{}
	in.xinfos[t] = x
	st, ok := t.Underlying().(*types.Struct)
	if !ok || isXMLName(t) {
		return x
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := tagOf(st, i, "xml")
		if (!f.Exported() && !f.Anonymous()) || tag == "-" {
			continue
		}
		if f.Anonymous() {
			et := f.Type()
			if p, ok := et.Underlying().(*types.Pointer); ok {
				et = p.Elem()
			}
			if _, ok := et.Underlying().(*types.Struct); ok {
				inner := in.xmlInfo(et)
				if x.xmlname == nil && inner.xmlname != nil {
					n := *inner.xmlname
					n.idx = append([]int{i}, n.idx...)
					x.xmlname = &n
				}
				for _, fi := range inner.fields {
					fi.idx = append([]int{i}, fi.idx...)
					in.xmlAdd(x, fi)
				}
				continue
			}
		}
		fi, err := in.xmlField(f, tag)
		if err != "" {
			x.err = err
			return x
		}
		fi.idx = []int{i}
		if f.Name() == "XMLName" {
			x.xmlname = fi
			continue
		}
		in.xmlAdd(x, *fi)
	}
	return x
}

func (in *interp) xmlAdd(x *xinfo, n fieldRef) {
	var confl []int
	for i := range x.fields {
		o := &x.fields[i]
		if o.flags&xfMode != n.flags&xfMode || (o.space != "" && n.space != "" && o.space != n.space) {
			continue
		}
		if o.name == n.name && o.space == n.space {
			confl = append(confl, i)
		}
	}
	if confl == nil {
		x.fields = append(x.fields, n)
		return
	}
	for _, i := range confl {
		if len(x.fields[i].idx) < len(n.idx) {
			return
		}
	}
	for _, i := range confl {
		if len(x.fields[i].idx) == len(n.idx) {
			x.err = "xml: field " + n.name + " conflicts with another field"
			return
		}
	}
	for k := len(confl) - 1; k >= 0; k-- {
		i := confl[k]
		x.fields = append(x.fields[:i:i], x.fields[i+1:]...)
	}
	x.fields = append(x.fields, n)
}

func (in *interp) xmlField(f *types.Var, tag string) (*fieldRef, string) {
	fi := &fieldRef{typ: f.Type()}
	full := tag
	if ns, t, ok := strings.Cut(tag, " "); ok {
		fi.space, tag = ns, t
	}
	tokens := strings.Split(tag, ",")
	if len(tokens) == 1 {
		fi.flags = xfElement
	} else {
		tag = tokens[0]
		for _, fl := range tokens[1:] {
			switch fl {
			case "attr":
				fi.flags |= xfAttr
			case "cdata":
				fi.flags |= xfCDATA
			case "chardata":
				fi.flags |= xfCharData
			case "innerxml":
				fi.flags |= xfInnerXML
			case "comment":
				fi.flags |= xfComment
			case "any":
				fi.flags |= xfAny
			case "omitempty":
				fi.flags |= xfOmitEmpty
			}
		}
		valid := true
		switch mode := fi.flags & xfMode; mode {
		case 0:
			fi.flags |= xfElement
		case xfAttr, xfCDATA, xfCharData, xfInnerXML, xfComment, xfAny, xfAny | xfAttr:
			if f.Name() == "XMLName" || tag != "" && mode != xfAttr {
				valid = false
			}
		default:
			valid = false
		}
		if fi.flags&xfMode == xfAny {
			fi.flags |= xfElement
		}
		if fi.flags&xfOmitEmpty != 0 && fi.flags&(xfElement|xfAttr) == 0 {
			valid = false
		}
		if !valid {
			return nil, "xml: invalid tag in field " + f.Name() + ": " + full
		}
	}
	if fi.space != "" && tag == "" {
		return nil, "xml: namespace without name in field " + f.Name()
	}
	if f.Name() == "XMLName" {
		fi.name = tag
		return fi, ""
	}
	if tag == "" {
		if n := in.lookupXMLName(f.Type()); n != nil {
			fi.space, fi.name = n.space, n.name
		} else {
			fi.name = f.Name()
		}
		return fi, ""
	}
	if strings.Contains(tag, ">") {
		unsupported("xml parent chains")
	}
	fi.name = tag
	if fi.flags&xfElement != 0 {
		if n := in.lookupXMLName(f.Type()); n != nil && n.name != fi.name {
			return nil, "xml: name " + fi.name + " conflicts with name " + n.name
		}
	}
	return fi, ""
}

func (in *interp) lookupXMLName(t types.Type) *fieldRef {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() != "XMLName" {
			continue
		}
		fi, err := in.xmlField(f, tagOf(st, i, "xml"))
		if err == "" && fi.name != "" {
			return fi
		}
		break
	}
	return nil
}

// docEq is whether two documents of the same shape have the same text; nil when
// their shapes differ.
func (in *interp) docEq(x, y interface{}) *Term {
	c := in.c
	eq, ok := c.True(), true
	str := func(a, b *Str) { eq = c.And(eq, in.strEq(a, b)) }
	on := func(a, b *Term) *Term { // presence of a part
		if a == nil {
			a = c.True()
		}
		if b == nil {
			b = c.True()
		}
		eq = c.And(eq, c.Eq(a, b))
		return a
	}
	// part adds the equality f finds as one which only counts when the part is there
	part := func(there *Term, f func()) {
		old := eq
		eq = c.True()
		f()
		eq = c.And(old, c.Or(c.Not(there), eq))
	}
	switch a := x.(type) {
	case *jdoc:
		b, same := y.(*jdoc)
		if !same || a.pretty != b.pretty || a.prefix != b.prefix || a.indent != b.indent {
			return nil
		}
		var rec func(a, b *jnode)
		rec = func(a, b *jnode) {
			if a.k != b.k || len(a.f) != len(b.f) || len(a.e) != len(b.e) {
				ok = false
				return
			}
			for i := range a.f {
				if a.f[i].name != b.f[i].name {
					ok = false
					return
				}
				part(on(a.f[i].on, b.f[i].on), func() { rec(a.f[i].v, b.f[i].v) })
			}
			for i := range a.e {
				rec(a.e[i], b.e[i])
			}
			switch a.k {
			case '"':
				str(a.s, b.s)
			case 't':
				eq = c.And(eq, c.Eq(a.t, b.t))
			case '0':
				if (a.t == nil) != (b.t == nil) || a.signed != b.signed {
					ok = false
				} else if a.t == nil {
					eq = c.And(eq, c.Bool(a.num == b.num))
				} else if a.t.w != b.t.w {
					ok = false
				} else {
					eq = c.And(eq, c.Eq(a.t, b.t))
				}
			}
		}
		rec(a.root, b.root)
	case *xdoc:
		b, same := y.(*xdoc)
		if !same || a.pretty != b.pretty || a.prefix != b.prefix || a.indent != b.indent || len(a.roots) != len(b.roots) {
			return nil
		}
		var rec func(a, b *xnode)
		rec = func(a, b *xnode) {
			if a.local != b.local || a.space != b.space || len(a.attrs) != len(b.attrs) || len(a.kids) != len(b.kids) {
				ok = false
				return
			}
			for i := range a.attrs {
				p, q := a.attrs[i], b.attrs[i]
				if p.local != q.local || p.space != q.space {
					ok = false
					return
				}
				part(on(p.on, q.on), func() { str(p.val, q.val) })
			}
			for i := range a.kids {
				p, q := a.kids[i], b.kids[i]
				if (p.n == nil) != (q.n == nil) {
					ok = false
					return
				}
				if p.n != nil {
					rec(p.n, q.n)
				} else {
					str(p.text, q.text)
				}
			}
		}
		for i := range a.roots {
			rec(a.roots[i], b.roots[i])
		}
	default:
		return nil
	}
	if !ok {
		return nil
	}
	return eq
}

func hasDoc(s *Str) bool {
	for _, x := range s.e {
		if o, ok := x.(*Opq); ok && o.doc != nil {
			return true
		}
	}
	return false
}

func init() {
	prefix := func(in *interp, cc *callCtx, a []Value) Value {
		s, p := a[0].(*Str), a[1].(*Str)
		if !hasDoc(s) || !p.concrete() {
			return declined{}
		}
		r := in.c.True()
		for i := 0; i < len(p.s); i++ {
			if i == len(s.e) {
				return in.c.False()
			}
			if t, ok := s.e[i].(*Term); ok {
				r = in.c.And(r, in.c.Eq(t, in.c.Const(8, uint64(p.s[i]))))
				continue
			}
			f := docFirst(s.e[i : i+1])
			if f != 0 && f != p.s[i] {
				return in.c.False()
			}
			if f == 0 || i+1 < len(p.s) {
				return declined{}
			}
		}
		return r
	}
	intrinsics["strings.HasPrefix"] = prefix
	intrinsics["internal/stringslite.HasPrefix"] = prefix
	intrinsics["io.ReadAll"] = func(in *interp, cc *callCtx, a []Value) Value {
		if in.spec > 0 {
			panic(abortSpec{})
		}
		r := a[0].(Iface)
		f, ok := r.V.(*Value)
		if r.T == nil || r.T.String() != "*os.File" || !ok || f == nil {
			return declined{}
		}
		b := append(SliceV{}, in.stdin...)
		in.stdin = nil
		return TupleV{b, Iface{}}
	}
}
