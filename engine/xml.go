package engine

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

type xattr struct {
	space, local string
	val          *Str
	on           *Term
}

type xnode struct {
	space, local string
	eff          string // the name space in scope, once resolved
	attrs        []xattr
	kids         []xkid
}

// resolve gives elements without a name space of their own the default one of
// their parent, as they have in the text.
func (n *xnode) resolve(def string) {
	n.eff = n.space
	if n.space == "" {
		n.eff = def
		for _, a := range n.attrs {
			if a.space == "" && a.local == "xmlns" && a.val.concrete() {
				n.eff = a.val.s
			}
		}
	}
	for _, k := range n.kids {
		if k.n != nil {
			k.n.resolve(n.eff)
		}
	}
}

type xkid struct {
	n    *xnode
	text *Str
}

type xdoc struct {
	roots          []*xnode
	prefix, indent string
	pretty         bool
}

// xdec is the state behind a *xml.Decoder handed to UnmarshalXML.
type xdec struct {
	cur      *xnode
	consumed bool
}

func (in *interp) xConcrete(n *xnode) bool {
	for _, a := range n.attrs {
		if !a.val.concrete() || (a.on != nil && a.on.op != OpConst) {
			return false
		}
	}
	for _, k := range n.kids {
		if k.n != nil && !in.xConcrete(k.n) || k.text != nil && !k.text.concrete() {
			return false
		}
	}
	return true
}

func xesc(s string) string {
	var sb strings.Builder
	_ = xml.EscapeText(&sb, []byte(s))
	return sb.String()
}

func (in *interp) renderXML(d *xdoc, ev func(*Term) uint64) string {
	var sb strings.Builder
	nl := func(depth int) {
		if !d.pretty {
			return
		}
		if sb.Len() > 0 {
			sb.WriteByte('\n')
		}
		sb.WriteString(d.prefix)
		for i := 0; i < depth; i++ {
			sb.WriteString(d.indent)
		}
	}
	var rec func(n *xnode, depth int)
	rec = func(n *xnode, depth int) {
		nl(depth)
		sb.WriteString("<" + n.local)
		if n.space != "" {
			sb.WriteString(` xmlns="` + xesc(n.space) + `"`)
		}
		for _, a := range n.attrs {
			if a.on != nil && ev(a.on) == 0 {
				continue
			}
			if a.space != "" {
				unsupported("attribute in a name space")
			}
			sb.WriteString(" " + a.local + `="` + xesc(in.strEv(a.val, ev)) + `"`)
		}
		sb.WriteString(">")
		elems := false
		for _, k := range n.kids {
			if k.n != nil {
				elems = true
				rec(k.n, depth+1)
			} else {
				sb.WriteString(xesc(in.strEv(k.text, ev)))
			}
		}
		if elems {
			nl(depth)
		}
		sb.WriteString("</" + n.local + ">")
	}
	for _, r := range d.roots {
		rec(r, 0)
	}
	return sb.String()
}

func (in *interp) xBytes(d *xdoc) SliceV {
	conc := true
	for _, r := range d.roots {
		conc = conc && in.xConcrete(r)
	}
	if conc {
		return in.bytesOf(str(in.renderXML(d, func(t *Term) uint64 { return t.val })))
	}
	return SliceV{in.opq(&Opq{kind: "xml", doc: d})}
}

// ---- marshal ----

func (in *interp) xText(r Value) *Str {
	t := r.(TupleV)
	if e := t[1].(Iface); e.T != nil {
		panic(jsonFail{e})
	}
	return in.xValid(in.strOf(t[0].(SliceV)))
}

func xmlChar(r rune) bool {
	return r == 0x09 || r == 0x0A || r == 0x0D || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

// xValid replaces characters XML cannot carry, as the escaper does.
func (in *interp) xValid(s *Str) *Str {
	if s.concrete() {
		var sb strings.Builder
		for i := 0; i < len(s.s); {
			r, w := utf8.DecodeRuneInString(s.s[i:])
			if r == utf8.RuneError && w == 1 || !xmlChar(r) {
				sb.WriteString("\uFFFD")
			} else {
				sb.WriteString(s.s[i : i+w])
			}
			i += w
		}
		return str(sb.String())
	}
	c := in.c
	var out []Value
	bad := []Value{c.Const(8, 0xEF), c.Const(8, 0xBF), c.Const(8, 0xBD)}
	for i := 0; i < len(s.e); i++ {
		t, ok := s.e[i].(*Term)
		if !ok {
			out = append(out, s.e[i])
			continue
		}
		k := func(v byte) *Term { return c.Const(8, uint64(v)) }
		good := c.And(c.Ule(k(0x20), t), c.Ult(t, k(0x80)))
		good = c.Or(good, c.Or(c.Eq(t, k(9)), c.Or(c.Eq(t, k(10)), c.Eq(t, k(13)))))
		if in.branch(good) {
			out = append(out, t)
			continue
		}
		if in.branch(c.Ult(t, k(0x80))) {
			out = append(out, bad...)
			continue
		}
		// start of a multi-byte sequence
		r := in.callFn(in.prog.Func("unicode/utf8", "DecodeRuneInString"), []Value{mkStr(termsOnly(s.e[i:]))}, nil).(TupleV)
		w := int(in.concInt(r[1].(*Term)))
		rt := r[0].(*Term)
		kr := func(v uint64) *Term { return c.Const(32, v) }
		if w == 1 {
			out = append(out, bad...)
			continue
		}
		inR := c.Or(c.Ule(rt, kr(0xD7FF)), c.Or(c.And(c.Ule(kr(0xE000), rt), c.Ule(rt, kr(0xFFFD))), c.Ule(kr(0x10000), rt)))
		if in.branch(inR) {
			out = append(out, s.e[i:i+w]...)
		} else {
			out = append(out, bad...)
		}
		i += w - 1
	}
	return mkStr(out)
}

func termsOnly(e []Value) []Value {
	for i, x := range e {
		if _, ok := x.(*Term); !ok {
			return e[:i]
		}
	}
	return e
}

func (in *interp) boolStr(t *Term) *Str {
	if t.op == OpConst {
		return str(strconv.FormatBool(t.val == 1))
	}
	return &Str{e: []Value{in.opq(&Opq{kind: "bool", args: []*Term{t}})}}
}

// xSimple is the text of a scalar; ok is false for unsupported kinds.
func (in *interp) xSimple(t types.Type, v Value) (*Str, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.boolStr(v.(*Term)), true
		case u.Info()&types.IsInteger != 0:
			_, s := width(u)
			return in.decStr(v.(*Term), s), true
		case u.Info()&types.IsFloat != 0:
			x := v.(*Term)
			return str(strconv.FormatFloat(fget(in.fixValue(x), x.w), 'g', -1, x.w)), true
		case u.Info()&types.IsString != 0:
			return in.xValid(v.(*Str)), true
		}
	case *types.Slice:
		if isByteSlice(t) {
			return in.xValid(in.strOf(v.(SliceV))), true
		}
	}
	return nil, false
}

type xstart struct{ space, local string }

func (in *interp) xDefaultStart(t types.Type, fi *fieldRef) xstart {
	if fi != nil && fi.name != "" {
		return xstart{fi.space, fi.name}
	}
	if n := typeName(t); n != "" {
		return xstart{"", n}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return xstart{"", typeName(p.Elem())}
	}
	return xstart{}
}

// xEncode appends the elements of a value.
func (in *interp) xEncode(t types.Type, v Value, cell *Value, fi *fieldRef, parent *xnode, out *[]*xnode, on *Term) {
	add := func(n *xnode) { *out = append(*out, n) }
	if fi != nil && fi.flags&xfOmitEmpty != 0 {
		if in.branch(in.isEmptyVal(t, v)) {
			return
		}
	}
	for {
		if u, ok := t.Underlying().(*types.Pointer); ok {
			p, ok := v.(*Value)
			if !ok {
				unsupported("xml of %v", descr(v))
			}
			if p == nil {
				return
			}
			t, v, cell = u.Elem(), *p, p
			continue
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			x := v.(Iface)
			if x.T == nil {
				return
			}
			t, v, cell = x.T, x.V, nil
			continue
		}
		break
	}
	pt := in.ptrType(t)
	if in.hasMethod(t, "MarshalXML", 2, 1) || cell != nil && in.hasMethod(pt, "MarshalXML", 2, 1) {
		unsupported("custom MarshalXML of %s", t)
	}
	if in.hasMethod(t, "MarshalText", 0, 2) {
		st := in.xDefaultStart(t, fi)
		n := &xnode{space: st.space, local: st.local}
		n.kids = append(n.kids, xkid{text: in.xText(in.callMethod(t, "MarshalText", v))})
		add(n)
		return
	}
	if cell != nil && in.hasMethod(pt, "MarshalText", 0, 2) {
		st := in.xDefaultStart(pt, fi)
		n := &xnode{space: st.space, local: st.local}
		n.kids = append(n.kids, xkid{text: in.xText(in.callMethod(pt, "MarshalText", cell))})
		add(n)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if !isByteSlice(t) {
			s := v.(SliceV)
			for i := range s {
				in.xEncode(u.Elem(), s[i], &s[i], fi, parent, out, nil)
			}
			return
		}
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
			a := v.(ArrayV)
			for i := range a {
				in.xEncode(u.Elem(), a[i], &a[i], fi, parent, out, nil)
			}
			return
		}
	}
	info := in.xmlInfo(t)
	if info.err != "" {
		in.jfail("%s", info.err)
	}
	n := &xnode{}
	if info.xmlname != nil {
		if info.xmlname.name != "" {
			n.space, n.local = info.xmlname.space, info.xmlname.name
		} else {
			tmp := cell
			if tmp == nil {
				tmp = new(Value)
				*tmp = v
			}
			fc := in.fieldCell(t, tmp, info.xmlname.idx, false)
			if s, ok := (*fc).(StructV); ok && len(s) == 2 {
				if l := s[1].(*Str); l.concrete() && l.s != "" {
					n.space, n.local = in.concreteString(s[0].(*Str)), l.s
				} else if !l.concrete() {
					unsupported("symbolic element name")
				}
			}
		}
	}
	if n.local == "" && fi != nil {
		n.space, n.local = fi.space, fi.name
	}
	if n.local == "" {
		n.local = typeName(t)
		if n.local == "" {
			in.jfail("xml: unsupported type: %s", t)
		}
	}
	st, isStruct := t.Underlying().(*types.Struct)
	_ = st
	if !isStruct {
		s, ok := in.xSimple(t, v)
		if !ok {
			in.jfail("xml: unsupported type: %s", t)
		}
		n.kids = append(n.kids, xkid{text: s})
		add(n)
		return
	}
	addr := cell != nil
	if cell == nil {
		cell = new(Value)
		*cell = v
	}
	for i := range info.fields {
		f := &info.fields[i]
		if f.flags&xfAttr == 0 {
			continue
		}
		fc := in.fieldCell(t, cell, f.idx, false)
		if fc == nil {
			if f.flags&xfOmitEmpty != 0 {
				continue
			}
			in.gopanic("reflect: zero Value (attribute behind a nil embedded pointer)")
		}
		var aon *Term
		if f.flags&xfOmitEmpty != 0 {
			aon = in.c.Not(in.isEmptyVal(f.typ, *fc))
			if aon.IsFalse() {
				continue
			}
			if aon.IsTrue() {
				aon = nil
			}
		}
		in.xAttr(n, f, f.typ, *fc, fc, addr, aon)
	}
	// an empty name overrides the name space of the parent
	if info.xmlname != nil && n.space == "" && info.xmlname.space == "" && info.xmlname.name == "" && parent != nil && parent.space != "" {
		n.attrs = append(n.attrs, xattr{local: "xmlns", val: emptyStr})
	}
	for i := range info.fields {
		f := &info.fields[i]
		if f.flags&xfAttr != 0 {
			continue
		}
		fc := in.fieldCell(t, cell, f.idx, false)
		if fc == nil {
			continue
		}
		switch f.flags & xfMode {
		case xfCDATA, xfCharData:
			var s *Str
			switch {
			case in.hasMethod(f.typ, "MarshalText", 0, 2):
				s = in.xText(in.callMethod(f.typ, "MarshalText", *fc))
			case addr && in.hasMethod(in.ptrType(f.typ), "MarshalText", 0, 2):
				s = in.xText(in.callMethod(in.ptrType(f.typ), "MarshalText", fc))
			default:
				ft, fv := f.typ, *fc
				for {
					if p, ok := ft.Underlying().(*types.Pointer); ok {
						q, _ := fv.(*Value)
						if q == nil {
							break
						}
						ft, fv = p.Elem(), *q
						continue
					}
					break
				}
				s, _ = in.xSimple(ft, fv)
			}
			if s != nil {
				n.kids = append(n.kids, xkid{text: s})
			}
		case xfComment, xfInnerXML:
			unsupported("xml comment or innerxml field")
		default:
			ac := fc
			if !addr {
				ac = nil
			}
			var kids []*xnode
			in.xEncode(f.typ, *fc, ac, f, n, &kids, nil)
			for _, k := range kids {
				n.kids = append(n.kids, xkid{n: k})
			}
		}
	}
	add(n)
}

func (in *interp) xAttr(n *xnode, f *fieldRef, t types.Type, v Value, cell *Value, addr bool, on *Term) {
	put := func(s *Str) {
		n.attrs = append(n.attrs, xattr{space: f.space, local: f.name, val: s, on: on})
	}
	pt := in.ptrType(t)
	if in.hasMethod(t, "MarshalXMLAttr", 1, 2) || addr && in.hasMethod(pt, "MarshalXMLAttr", 1, 2) {
		unsupported("MarshalXMLAttr")
	}
	_, isIface := t.Underlying().(*types.Interface)
	if isIface && v.(Iface).T == nil {
		return
	}
	if !isIface && in.hasMethod(t, "MarshalText", 0, 2) {
		put(in.xText(in.callMethod(t, "MarshalText", v)))
		return
	}
	if addr && cell != nil && in.hasMethod(pt, "MarshalText", 0, 2) {
		put(in.xText(in.callMethod(pt, "MarshalText", cell)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := v.(*Value)
		if p == nil {
			return
		}
		t, v = u.Elem(), *p
	case *types.Interface:
		x := v.(Iface)
		t, v = x.T, x.V
	}
	s, ok := in.xSimple(t, v)
	if !ok {
		in.jfail("xml: unsupported type: %s", t)
	}
	put(s)
}

// ---- parse ----

func blank(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.op == OpConst && (t.val == ' ' || t.val == '\t' || t.val == '\r' || t.val == '\n')
}

// xParse reads literal text that may contain symbolic bytes and opaque chunks.
// They are replaced by private characters, the real tokenizer runs on the
// result, and the characters are substituted back.
func (in *interp) xParse(e SliceV) (*xnode, string) {
	if hasOpq(e) {
		// white space around a document is no part of its root element
		for len(e) > 1 && blank(e[0]) {
			e = e[1:]
		}
		for n := len(e) - 1; n > 0 && blank(e[n]); n-- {
			e = e[:n]
		}
	}
	if len(e) == 1 {
		if o, ok := e[0].(*Opq); ok && o.kind == "xml" {
			d := o.doc.(*xdoc)
			if len(d.roots) == 0 {
				return nil, "EOF"
			}
			d.roots[0].resolve("")
			return d.roots[0], ""
		}
	}
	c := in.c
	var sb strings.Builder
	var subst []Value
	for _, x := range e {
		switch y := x.(type) {
		case *Term:
			if y.op == OpConst {
				sb.WriteByte(byte(y.val))
				continue
			}
			safe := c.And(c.Ule(c.Const(8, 0x20), y), c.Ult(y, c.Const(8, 0x7f)))
			for _, b := range []byte("<>&'\"/=?![]-;") {
				safe = c.And(safe, c.Not(c.Eq(y, c.Const(8, uint64(b)))))
			}
			if !in.branch(safe) {
				sb.WriteByte(byte(in.concInt(y)))
				continue
			}
			sb.WriteRune(rune(0xE000 + len(subst)))
			subst = append(subst, y)
		case *Opq:
			if y.doc != nil {
				unsupported("document inside a document")
			}
			sb.WriteRune(rune(0xE000 + len(subst)))
			subst = append(subst, y)
		}
		if len(subst) > 6000 {
			unsupported("too many symbolic parts in a document")
		}
	}
	back := func(s string) *Str {
		has := false
		for _, r := range s {
			has = has || r >= 0xE000 && int(r) < 0xE000+len(subst)
		}
		if !has {
			return str(s)
		}
		var out []Value
		for i := 0; i < len(s); {
			r, w := utf8.DecodeRuneInString(s[i:])
			if r >= 0xE000 && int(r) < 0xE000+len(subst) {
				out = append(out, subst[r-0xE000])
			} else {
				for k := 0; k < w; k++ {
					out = append(out, c.Const(8, uint64(s[i+k])))
				}
			}
			i += w
		}
		return mkStr(out)
	}
	lit := func(s string) string {
		b := back(s)
		if !b.concrete() {
			unsupported("symbolic name in XML")
		}
		return b.s
	}
	d := xml.NewDecoder(strings.NewReader(sb.String()))
	var stack []*xnode
	for {
		tok, err := d.Token()
		if err != nil {
			if err == io.EOF {
				return nil, "EOF"
			}
			return nil, err.Error()
		}
		switch t := tok.(type) {
		case xml.StartElement:
			n := &xnode{space: lit(t.Name.Space), local: lit(t.Name.Local)}
			for _, a := range t.Attr {
				n.attrs = append(n.attrs, xattr{space: lit(a.Name.Space), local: lit(a.Name.Local), val: back(a.Value)})
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, xkid{n: n})
			}
			stack = append(stack, n)
		case xml.EndElement:
			n := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if len(stack) == 0 {
				n.resolve("")
				return n, ""
			}
		case xml.CharData:
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, xkid{text: back(string(t))})
			}
		}
	}
}

// ---- unmarshal ----

func (in *interp) xmlErr(f string, a ...interface{}) {
	panic(jsonFail{in.mkError(fmt.Sprintf(f, a...))})
}

func (in *interp) xStartValue(n *xnode) StructV {
	return StructV{StructV{str(n.eff), str(n.local)}, SliceV{in.opq(&Opq{kind: "xattrs", doc: n})}}
}

func (n *xnode) allText() *Str { return nil }

func (in *interp) xCharData(n *xnode) *Str {
	out := emptyStr
	for _, k := range n.kids {
		if k.text != nil {
			out = in.concat(out, k.text)
		}
	}
	return out
}

func (in *interp) xInto(n *xnode, t types.Type, cell *Value) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		x, _ := (*cell).(Iface)
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Pointer); ok {
				if p, _ := x.V.(*Value); p != nil {
					tmp := new(Value)
					*tmp = p
					t, cell = x.T, tmp
				}
			}
		}
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		p, _ := (*cell).(*Value)
		if p == nil {
			p = new(Value)
			*p = in.zero(u.Elem())
			in.setCell(cell, p)
		}
		t, cell = u.Elem(), p
	}
	pt := in.ptrType(t)
	call := func(mt types.Type, recv Value, name string, arg ...Value) {
		if e := in.callMethod(mt, name, append([]Value{recv}, arg...)...).(Iface); e.T != nil {
			panic(jsonFail{e})
		}
	}
	if _, isI := t.Underlying().(*types.Interface); !isI && in.hasMethod(pt, "UnmarshalXML", 2, 1) {
		dp := new(Value)
		st := &xdec{cur: n}
		*dp = st
		call(pt, cell, "UnmarshalXML", dp, in.xStartValue(n))
		if !st.consumed {
			in.xmlErr("xml: %s.UnmarshalXML did not consume entire <%s> element", t, n.local)
		}
		return
	}
	if _, isI := t.Underlying().(*types.Interface); !isI && in.hasMethod(pt, "UnmarshalText", 1, 1) {
		call(pt, cell, "UnmarshalText", in.bytesOf(in.xCharData(n)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return // skipped
	case *types.Slice:
		if isByteSlice(t) {
			in.xCopy(t, cell, in.xCharData(n), nil)
			return
		}
		s, _ := (*cell).(SliceV)
		ns := make(SliceV, len(s)+1)
		copy(ns, s)
		ns[len(s)] = in.zero(u.Elem())
		in.setCell(cell, ns)
		err := in.catchJSON(func() { in.xInto(n, u.Elem(), &ns[len(s)]) })
		if err.T != nil {
			in.setCell(cell, s)
			panic(jsonFail{err})
		}
		return
	case *types.Basic:
		in.xCopy(t, cell, in.xCharData(n), nil)
		return
	case *types.Struct:
		if isXMLName(t) {
			in.store(cell, StructV{str(n.eff), str(n.local)})
			return
		}
		in.xStruct(n, t, cell)
		return
	}
	in.xmlErr("unknown type %s", t)
}

func (in *interp) xStruct(n *xnode, t types.Type, cell *Value) {
	info := in.xmlInfo(t)
	if info.err != "" {
		in.xmlErr("%s", info.err)
	}
	if x := info.xmlname; x != nil {
		if x.name != "" && x.name != n.local {
			in.xmlErr("expected element type <%s> but have <%s>", x.name, n.local)
		}
		if x.space != "" && x.space != n.eff {
			in.xmlErr("expected element <%s> in name space %s but have %s", x.name, x.space, n.eff)
		}
		fc := in.fieldCell(t, cell, x.idx, true)
		if isXMLName(x.typ) {
			in.store(fc, StructV{str(n.eff), str(n.local)})
		}
	}
	for _, a := range n.attrs {
		for i := range info.fields {
			f := &info.fields[i]
			switch f.flags & xfMode {
			case xfAttr:
				if a.local == f.name && (f.space == "" || f.space == a.space) {
					in.xUnmarshalAttr(f.typ, in.fieldCell(t, cell, f.idx, true), a)
				}
			case xfAny | xfAttr:
				unsupported("any,attr")
			}
		}
	}
	var saveData, saveAny *fieldRef
	for i := range info.fields {
		f := &info.fields[i]
		switch f.flags & xfMode {
		case xfCDATA, xfCharData:
			if saveData == nil {
				saveData = f
			}
		case xfComment, xfInnerXML:
			unsupported("xml comment or innerxml field")
		case xfAny, xfAny | xfElement:
			if saveAny == nil {
				saveAny = f
			}
		}
	}
	for _, k := range n.kids {
		if k.n == nil {
			continue
		}
		var hit *fieldRef
		for i := range info.fields {
			f := &info.fields[i]
			if f.flags&xfElement == 0 || f.space != "" && f.space != k.n.eff {
				continue
			}
			if f.name == k.n.local {
				hit = f
				break
			}
		}
		if hit == nil {
			hit = saveAny
		}
		if hit != nil {
			in.xInto(k.n, hit.typ, in.fieldCell(t, cell, hit.idx, true))
		}
	}
	if saveData != nil {
		fc := in.fieldCell(t, cell, saveData.idx, true)
		data := in.xCharData(n)
		pt := in.ptrType(saveData.typ)
		if in.hasMethod(pt, "UnmarshalText", 1, 1) {
			if e := in.callMethod(pt, "UnmarshalText", fc, in.bytesOf(data)).(Iface); e.T != nil {
				panic(jsonFail{e})
			}
			return
		}
		in.xCopy(saveData.typ, fc, data, nil)
	}
}

func (in *interp) xUnmarshalAttr(t types.Type, cell *Value, a xattr) {
	on := a.on
	if on != nil {
		if on.IsTrue() {
			on = nil
		} else if b, ok := t.Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 || in.customText(t) {
			if !in.branch(on) {
				return
			}
			on = nil
		}
	}
	if u, ok := t.Underlying().(*types.Pointer); ok {
		p, _ := (*cell).(*Value)
		if p == nil {
			p = new(Value)
			*p = in.zero(u.Elem())
			in.setCell(cell, p)
		}
		t, cell = u.Elem(), p
	}
	pt := in.ptrType(t)
	if in.hasMethod(pt, "UnmarshalXMLAttr", 1, 1) {
		unsupported("UnmarshalXMLAttr")
	}
	if in.hasMethod(pt, "UnmarshalText", 1, 1) {
		if e := in.callMethod(pt, "UnmarshalText", cell, in.bytesOf(a.val)).(Iface); e.T != nil {
			panic(jsonFail{e})
		}
		return
	}
	if u, ok := t.Underlying().(*types.Slice); ok && !isByteSlice(t) {
		s, _ := (*cell).(SliceV)
		ns := make(SliceV, len(s)+1)
		copy(ns, s)
		ns[len(s)] = in.zero(u.Elem())
		in.setCell(cell, ns)
		in.xUnmarshalAttr(u.Elem(), &ns[len(s)], a)
		return
	}
	in.xCopy(t, cell, a.val, on)
}

func (in *interp) customText(t types.Type) bool {
	return in.hasMethod(in.ptrType(t), "UnmarshalText", 1, 1)
}

// xCopy is copyValue: parse text into a scalar.
func (in *interp) xCopy(t types.Type, cell *Value, s *Str, on *Term) {
	c := in.c
	if u, ok := t.Underlying().(*types.Pointer); ok {
		p, _ := (*cell).(*Value)
		if p == nil {
			p = new(Value)
			*p = in.zero(u.Elem())
			in.setCell(cell, p)
		}
		t, cell = u.Elem(), p
	}
	set := func(v *Term) {
		if on != nil {
			v = c.Ite(on, v, (*cell).(*Term))
		}
		in.setCell(cell, v)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByteSlice(t) {
			in.setCell(cell, in.bytesOf(s))
			return
		}
	case *types.Basic:
		w, signed := width(u)
		if u.Info()&types.IsString != 0 {
			in.setCell(cell, s)
			return
		}
		if s.concrete() && s.s == "" {
			set(c.Const(w, 0))
			return
		}
		if s.concrete() {
			s = str(strings.TrimSpace(s.s))
		} else if hasOpq(s.e) {
			s = in.trimLit(s)
		} else {
			s = in.callFn(in.prog.Func("strings", "TrimSpace"), []Value{s}, nil).(*Str)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if o := onlyOpq(s, "bool"); o != nil {
				set(o.args[0])
				return
			}
			b, err := strconv.ParseBool(in.concreteString(s))
			if err != nil {
				if on != nil && !in.branch(on) {
					return
				}
				in.xmlErr("%s", err)
			}
			set(c.Bool(b))
			return
		case u.Info()&types.IsInteger != 0:
			if o := onlyOpq(s, "dec"); o != nil {
				v, ok := in.jInt(&jnode{t: o.args[0], signed: o.spec == "s"}, w, signed)
				if on != nil {
					ok = c.Or(ok, c.Not(on))
				}
				if !in.branch(ok) {
					in.xmlErr("strconv.ParseUint: value out of range")
				}
				set(c.Trunc(v, w))
				return
			}
			if !s.concrete() && !hasOpq(s.e) {
				name := "ParseUint"
				if signed {
					name = "ParseInt"
				}
				r := in.callFn(in.prog.Func("strconv", name), []Value{s, c.Const(64, 10), c.Const(64, uint64(w))}, nil).(TupleV)
				if e := r[1].(Iface); e.T != nil {
					panic(jsonFail{e})
				}
				set(c.Trunc(r[0].(*Term), w))
				return
			}
			txt := in.concreteString(s)
			var v uint64
			var err error
			if signed {
				var i int64
				i, err = strconv.ParseInt(txt, 10, w)
				v = uint64(i)
			} else {
				v, err = strconv.ParseUint(txt, 10, w)
			}
			if err != nil {
				if on != nil && !in.branch(on) {
					return
				}
				in.xmlErr("%s", err)
			}
			set(c.Const(w, v))
			return
		case u.Info()&types.IsFloat != 0:
			f, err := strconv.ParseFloat(in.concreteString(s), w)
			if err != nil {
				in.xmlErr("%s", err)
			}
			set(c.Const(w, fput(f, w)))
			return
		}
	}
	in.xmlErr("cannot unmarshal into %s", t)
}

func init() {
	I := func(name string, f intrinsic) { intrinsics[name] = f }
	marshal := func(in *interp, v Iface, d *xdoc) Value {
		in.st.stub("encoding/xml.Marshal (document model)")
		err := in.catchJSON(func() {
			if v.T != nil {
				in.xEncode(v.T, v.V, nil, nil, nil, &d.roots, nil)
			}
		})
		if err.T != nil {
			return TupleV{SliceV(nil), err}
		}
		return TupleV{in.xBytes(d), Iface{}}
	}
	I("encoding/xml.Marshal", func(in *interp, cc *callCtx, a []Value) Value {
		return marshal(in, a[0].(Iface), &xdoc{})
	})
	I("encoding/xml.MarshalIndent", func(in *interp, cc *callCtx, a []Value) Value {
		return marshal(in, a[0].(Iface), &xdoc{pretty: true, prefix: in.concreteString(a[1].(*Str)), indent: in.concreteString(a[2].(*Str))})
	})
	I("encoding/xml.Unmarshal", func(in *interp, cc *callCtx, a []Value) Value {
		in.st.stub("encoding/xml.Unmarshal (document model)")
		n, perr := in.xParse(a[0].(SliceV))
		if perr != "" {
			return in.mkError(perr)
		}
		v := a[1].(Iface)
		return in.xDecodeTop(n, v)
	})
	I("(*encoding/xml.Decoder).DecodeElement", func(in *interp, cc *callCtx, a []Value) Value {
		d, ok := (*a[0].(*Value)).(*xdec)
		if !ok || d.consumed {
			unsupported("xml decoder use")
		}
		if p, _ := a[2].(*Value); p == nil {
			unsupported("DecodeElement without a start element")
		}
		e := in.xDecodeTop(d.cur, a[1].(Iface))
		if e.T == nil {
			d.consumed = true
		}
		return e
	})
	I("(*encoding/xml.Decoder).Skip", func(in *interp, cc *callCtx, a []Value) Value {
		d, ok := (*a[0].(*Value)).(*xdec)
		if !ok || d.consumed {
			unsupported("xml decoder use")
		}
		d.consumed = true
		return Iface{}
	})
	I("strconv.ParseBool", func(in *interp, cc *callCtx, a []Value) Value {
		s := a[0].(*Str)
		if o := onlyOpq(s, "bool"); o != nil {
			return TupleV{o.args[0], Iface{}}
		}
		if s.e != nil && hasOpq(s.e) {
			a[0] = in.concStr(s)
		}
		return declined{}
	})
}

func (in *interp) xDecodeTop(n *xnode, v Iface) Iface {
	if v.T == nil {
		return in.mkError("non-pointer passed to Unmarshal")
	}
	u, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		return in.mkError("non-pointer passed to Unmarshal")
	}
	p, _ := v.V.(*Value)
	if p == nil {
		return in.mkError("nil pointer passed to Unmarshal")
	}
	return in.catchJSON(func() { in.xInto(n, u.Elem(), p) })
}
