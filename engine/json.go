package engine

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type jnode struct {
	k      byte // '{' '[' '"' '0' 't' 'n'
	f      []jfield
	e      []*jnode
	s      *Str
	t      *Term
	signed bool
	num    string // literal number when t is nil
}

type jfield struct {
	name string
	on   *Term // nil: always present
	v    *jnode
}

type jdoc struct {
	root           *jnode
	prefix, indent string
	pretty         bool
}

func (in *interp) jConcrete(n *jnode) bool {
	switch n.k {
	case '{':
		for _, f := range n.f {
			if (f.on != nil && f.on.op != OpConst) || !in.jConcrete(f.v) {
				return false
			}
		}
	case '[':
		for _, x := range n.e {
			if !in.jConcrete(x) {
				return false
			}
		}
	case '"':
		return n.s.concrete()
	case '0', 't':
		return n.t == nil || n.t.op == OpConst
	}
	return true
}

func (in *interp) jText(n *jnode, ev func(*Term) uint64, sb *strings.Builder) {
	switch n.k {
	case '{':
		sb.WriteByte('{')
		first := true
		for _, f := range n.f {
			if f.on != nil && ev(f.on) == 0 {
				continue
			}
			if !first {
				sb.WriteByte(',')
			}
			first = false
			b, _ := json.Marshal(f.name)
			sb.Write(b)
			sb.WriteByte(':')
			in.jText(f.v, ev, sb)
		}
		sb.WriteByte('}')
	case '[':
		sb.WriteByte('[')
		for i, x := range n.e {
			if i > 0 {
				sb.WriteByte(',')
			}
			in.jText(x, ev, sb)
		}
		sb.WriteByte(']')
	case '"':
		b, _ := json.Marshal(in.strEv(n.s, ev))
		sb.Write(b)
	case '0':
		switch {
		case n.t == nil:
			sb.WriteString(n.num)
		case n.signed:
			sb.WriteString(strconv.FormatInt(int64(ev(n.t)), 10))
		default:
			sb.WriteString(strconv.FormatUint(ev(n.t), 10))
		}
	case 't':
		sb.WriteString(strconv.FormatBool(ev(n.t) == 1))
	case 'n':
		sb.WriteString("null")
	}
}

func (in *interp) renderJSON(d *jdoc, ev func(*Term) uint64) string {
	var sb strings.Builder
	in.jText(d.root, ev, &sb)
	if d.pretty {
		var b bytes.Buffer
		_ = json.Indent(&b, []byte(sb.String()), d.prefix, d.indent)
		return b.String()
	}
	return sb.String()
}

func (in *interp) jBytes(d *jdoc) SliceV {
	if in.jConcrete(d.root) {
		return in.bytesOf(str(in.renderJSON(d, func(t *Term) uint64 { return t.val })))
	}
	return SliceV{in.opq(&Opq{kind: "json", doc: d})}
}

// ---- marshal ----

type jsonFail struct{ err Iface }

func (in *interp) jfail(f string, a ...interface{}) {
	panic(jsonFail{in.mkError(fmt.Sprintf(f, a...))})
}

// catchJSON runs f and returns the error it threw.
func (in *interp) catchJSON(f func()) (err Iface) {
	fr, d := in.fr, in.depth
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(jsonFail); ok {
				in.fr, in.depth = fr, d
				err = x.err
				return
			}
			panic(r)
		}
	}()
	f()
	return Iface{}
}

func (in *interp) jsonFields(t types.Type) []fieldRef {
	if x, ok := in.jinfos[t]; ok {
		return x
	}
	type cand struct {
		fieldRef
		depth int
	}
	var all []cand
	var walk func(t types.Type, idx []int, depth int, seen []types.Type)
	walk = func(t types.Type, idx []int, depth int, seen []types.Type) {
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := tagOf(st, i, "json")
			if tag == "-" {
				continue
			}
			et := f.Type()
			if f.Anonymous() {
				if p, ok := et.Underlying().(*types.Pointer); ok {
					et = p.Elem()
				}
				_, isS := et.Underlying().(*types.Struct)
				if !f.Exported() && !isS {
					continue
				}
			} else if !f.Exported() {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			has := func(o string) bool {
				for _, x := range strings.Split(opts, ",") {
					if x == o {
						return true
					}
				}
				return false
			}
			ni := append(append([]int(nil), idx...), i)
			if _, isS := et.Underlying().(*types.Struct); f.Anonymous() && isS && name == "" {
				dup := false
				for _, s := range seen {
					dup = dup || types.Identical(s, et)
				}
				if !dup {
					walk(et, ni, depth+1, append(seen, et))
				}
				continue
			}
			fr := fieldRef{name: name, typ: f.Type(), idx: ni, tagged: name != "", omitEmpty: has("omitempty"), omitZero: has("omitzero"), quoted: has("string")}
			if name == "" {
				fr.name = f.Name()
			}
			all = append(all, cand{fr, depth})
		}
	}
	walk(t, nil, 0, []types.Type{t})
	var out []fieldRef
	for i, a := range all {
		dominated := false
		for j, b := range all {
			if i == j || a.name != b.name {
				continue
			}
			if b.depth < a.depth || b.depth == a.depth && (b.tagged && !a.tagged || b.tagged == a.tagged) {
				dominated = true
			}
		}
		if !dominated {
			out = append(out, a.fieldRef)
		}
	}
	in.jinfos[t] = out
	return out
}

// jEncode makes the document of a value; cell is its address when it has one.
func (in *interp) jEncode(t types.Type, v Value, cell *Value) *jnode {
	c := in.c
	null := &jnode{k: 'n'}
	_, isPtr := t.Underlying().(*types.Pointer)
	_, isIface := t.Underlying().(*types.Interface)
	if isPtr {
		if p, ok := v.(*Value); ok && p == nil {
			return null
		}
	}
	if isIface {
		x := v.(Iface)
		if x.T == nil {
			return null
		}
		return in.jEncode(x.T, x.V, nil)
	}
	if !isPtr && cell != nil {
		pt := in.ptrType(t)
		if in.hasMethod(pt, "MarshalJSON", 0, 2) && !in.hasMethod(t, "MarshalJSON", 0, 2) {
			return in.jFromMethod(pt, cell)
		}
	}
	if in.hasMethod(t, "MarshalJSON", 0, 2) {
		return in.jFromMethod(t, v)
	}
	if !isPtr && cell != nil {
		pt := in.ptrType(t)
		if in.hasMethod(pt, "MarshalText", 0, 2) && !in.hasMethod(t, "MarshalText", 0, 2) {
			return in.jFromText(pt, cell)
		}
	}
	if in.hasMethod(t, "MarshalText", 0, 2) {
		return in.jFromText(t, v)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &jnode{k: 't', t: v.(*Term)}
		case u.Info()&types.IsInteger != 0:
			x := v.(*Term)
			if _, s := width(u); s {
				return &jnode{k: '0', t: c.Sext(x, 64), signed: true}
			}
			return &jnode{k: '0', t: c.Zext(x, 64)}
		case u.Info()&types.IsFloat != 0:
			x := v.(*Term)
			f := fget(in.fixValue(x), x.w)
			if math.IsNaN(f) || math.IsInf(f, 0) {
				in.jfail("json: unsupported value")
			}
			var b []byte
			if x.w == 32 {
				b, _ = json.Marshal(float32(f))
			} else {
				b, _ = json.Marshal(f)
			}
			return &jnode{k: '0', num: string(b)}
		case u.Info()&types.IsString != 0:
			return &jnode{k: '"', s: in.jValid(v.(*Str))}
		}
	case *types.Pointer:
		p, ok := v.(*Value)
		if !ok {
			unsupported("json of %v", descr(v))
		}
		return in.jEncode(u.Elem(), *p, p)
	case *types.Struct:
		n := &jnode{k: '{'}
		if cell == nil {
			cell = new(Value)
			*cell = v
			return in.jEncodeStruct(t, cell, false, n)
		}
		return in.jEncodeStruct(t, cell, true, n)
	case *types.Slice:
		s := v.(SliceV)
		if s == nil {
			return null
		}
		if isByteSlice(t) && !in.hasMethod(u.Elem(), "MarshalJSON", 0, 2) && !in.hasMethod(u.Elem(), "MarshalText", 0, 2) {
			g := in.prog.Func("encoding/base64", "NewEncoding")
			_ = g
			enc := in.load(in.global(in.prog.Global("encoding/base64", "StdEncoding")))
			f := in.methodByName(in.ptrType(in.prog.Type("encoding/base64", "Encoding")), "EncodeToString")
			return &jnode{k: '"', s: in.callFn(f, []Value{enc, s}, nil).(*Str)}
		}
		n := &jnode{k: '[', e: []*jnode{}}
		for i := range s {
			n.e = append(n.e, in.jEncode(u.Elem(), s[i], &s[i]))
		}
		return n
	case *types.Array:
		a := v.(ArrayV)
		n := &jnode{k: '[', e: []*jnode{}}
		for i := range a {
			n.e = append(n.e, in.jEncode(u.Elem(), a[i], &a[i]))
		}
		return n
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return null
		}
		n := &jnode{k: '{'}
		for i, k := range m.keys {
			ks, ok := k.(*Str)
			if !ok || !ks.concrete() {
				unsupported("json of a map with such keys")
			}
			n.f = append(n.f, jfield{name: ks.s, v: in.jEncode(u.Elem(), m.vals[i], nil)})
		}
		sort.SliceStable(n.f, func(i, j int) bool { return n.f[i].name < n.f[j].name })
		return n
	}
	in.jfail("json: unsupported type: %s", t)
	return nil
}

func (in *interp) jEncodeStruct(t types.Type, cell *Value, addr bool, n *jnode) *jnode {
	for _, f := range in.jsonFields(t) {
		if f.quoted {
			unsupported("json string option")
		}
		fc := in.fieldCell(t, cell, f.idx, false)
		if fc == nil {
			continue
		}
		var on *Term
		if f.omitEmpty {
			on = in.c.Not(in.isEmptyVal(f.typ, *fc))
		}
		if f.omitZero {
			var z *Term
			switch x := (*fc).(type) {
			case SliceV:
				z = in.c.Bool(x == nil)
			case *MapV:
				z = in.c.Bool(x == nil)
			default:
				z = in.eqVal(*fc, in.zero(f.typ))
			}
			if on == nil {
				on = in.c.Not(z)
			} else {
				on = in.c.And(on, in.c.Not(z))
			}
		}
		if on != nil {
			if on.IsFalse() {
				continue
			}
			if on.IsTrue() {
				on = nil
			}
		}
		ac := fc
		if !addr {
			ac = nil
		}
		n.f = append(n.f, jfield{name: f.name, on: on, v: in.jEncode(f.typ, *fc, ac)})
	}
	return n
}

// jValid makes sure the text is valid UTF-8 (invalid parts would be replaced).
func (in *interp) jValid(s *Str) *Str {
	if s.concrete() {
		if !utf8.ValidString(s.s) {
			return str(string([]rune(s.s)))
		}
		return s
	}
	if hasOpq(s.e) {
		for _, x := range s.e {
			if t, ok := x.(*Term); ok && !(t.op == OpConst && t.val < 0x80) {
				if !in.branch(in.c.Ult(t, in.c.Const(8, 0x80))) {
					unsupported("non-ASCII text next to an opaque number")
				}
			}
		}
		return s
	}
	ascii := in.c.True()
	for _, x := range s.e {
		ascii = in.c.And(ascii, in.c.Ult(x.(*Term), in.c.Const(8, 0x80)))
	}
	if in.branch(ascii) {
		return s
	}
	ok := in.callFn(in.prog.Func("unicode/utf8", "ValidString"), []Value{s}, nil).(*Term)
	if !in.branch(ok) {
		return in.callFn(in.prog.Func("verif/nd", "ValidUTF8"), []Value{s}, nil).(*Str)
	}
	return s
}

func (in *interp) wrapErr(msg string, e Iface) Iface {
	p := new(Value)
	*p = StructV{str(msg), e}
	return Iface{T: in.ptrType(in.prog.Type("fmt", "wrapError")), V: p}
}

func (in *interp) jFromMethod(t types.Type, recv Value) *jnode {
	r := in.callMethod(t, "MarshalJSON", recv).(TupleV)
	if e := r[1].(Iface); e.T != nil {
		panic(jsonFail{in.wrapErr("json: error calling MarshalJSON for type "+t.String(), e)})
	}
	n, ok := in.jParse(r[0].(SliceV))
	if !ok {
		in.jfail("json: error calling MarshalJSON for type %s: invalid JSON", t)
	}
	return n
}

func (in *interp) jFromText(t types.Type, recv Value) *jnode {
	r := in.callMethod(t, "MarshalText", recv).(TupleV)
	if e := r[1].(Iface); e.T != nil {
		panic(jsonFail{in.wrapErr("json: error calling MarshalText for type "+t.String(), e)})
	}
	return &jnode{k: '"', s: in.jValid(in.strOf(r[0].(SliceV)))}
}

// ---- parse ----

type jparser struct {
	in *interp
	e  []Value
	i  int
}

func (in *interp) jParse(e SliceV) (n *jnode, ok bool) {
	p := &jparser{in: in, e: e}
	defer func() {
		if r := recover(); r != nil {
			if _, bad := r.(jsyntax); bad {
				n, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	n = p.value(0)
	p.ws()
	if p.i != len(e) {
		return nil, false
	}
	return n, true
}

type jsyntax struct{}

// at gives the concrete byte at the cursor (0 at the end, 1 for opaque text).
func (p *jparser) at() byte {
	if p.i >= len(p.e) {
		return 0
	}
	switch x := p.e[p.i].(type) {
	case *Term:
		return byte(p.in.concInt(x))
	}
	return 1
}

func (p *jparser) ws() {
	for p.i < len(p.e) {
		switch p.at() {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jparser) lit(s string) {
	for k := 0; k < len(s); k++ {
		if p.at() != s[k] {
			panic(jsyntax{})
		}
		p.i++
	}
}

func (p *jparser) value(depth int) *jnode {
	if depth > 10000 {
		panic(jsyntax{})
	}
	p.ws()
	switch c := p.at(); {
	case c == 1:
		o := p.e[p.i].(*Opq)
		switch o.kind {
		case "json":
			p.i++
			return o.doc.(*jdoc).root
		case "dec":
			p.i++
			if n := p.at(); n == '.' || n == 'e' || n == 'E' || n >= '0' && n <= '9' || n == 1 {
				unsupported("number made of pieces")
			}
			return &jnode{k: '0', t: o.args[0], signed: o.spec == "s"}
		case "bool":
			p.i++
			return &jnode{k: 't', t: o.args[0]}
		}
		unsupported("opaque %s text in JSON", o.kind)
	case c == '{':
		p.i++
		n := &jnode{k: '{'}
		p.ws()
		if p.at() == '}' {
			p.i++
			return n
		}
		for {
			p.ws()
			if p.at() != '"' {
				panic(jsyntax{})
			}
			k := p.str()
			if !k.concrete() {
				k = str(p.in.concreteString(k))
			}
			p.ws()
			p.lit(":")
			n.f = append(n.f, jfield{name: k.s, v: p.value(depth + 1)})
			p.ws()
			if p.at() == ',' {
				p.i++
				continue
			}
			p.lit("}")
			return n
		}
	case c == '[':
		p.i++
		n := &jnode{k: '[', e: []*jnode{}}
		p.ws()
		if p.at() == ']' {
			p.i++
			return n
		}
		for {
			n.e = append(n.e, p.value(depth+1))
			p.ws()
			if p.at() == ',' {
				p.i++
				continue
			}
			p.lit("]")
			return n
		}
	case c == '"':
		return &jnode{k: '"', s: p.str()}
	case c == 't':
		p.lit("true")
		return &jnode{k: 't', t: p.in.c.True()}
	case c == 'f':
		p.lit("false")
		return &jnode{k: 't', t: p.in.c.False()}
	case c == 'n':
		p.lit("null")
		return &jnode{k: 'n'}
	case c == '-' || c >= '0' && c <= '9':
		var sb strings.Builder
		for {
			c := p.at()
			if c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c >= '0' && c <= '9' {
				sb.WriteByte(c)
				p.i++
				continue
			}
			break
		}
		if !json.Valid([]byte(sb.String())) {
			panic(jsyntax{})
		}
		return &jnode{k: '0', num: sb.String()}
	}
	panic(jsyntax{})
}

func (p *jparser) str() *Str {
	p.i++ // opening quote
	var out []Value
	c := p.in.c
	lit := func(s string) {
		for k := 0; k < len(s); k++ {
			out = append(out, c.Const(8, uint64(s[k])))
		}
	}
	for {
		if p.i >= len(p.e) {
			panic(jsyntax{})
		}
		switch x := p.e[p.i].(type) {
		case *Opq:
			if x.doc != nil {
				unsupported("document inside a JSON string")
			}
			out = append(out, x)
			p.i++
			continue
		case *Term:
			if x.op != OpConst {
				plain := c.And(c.Ule(c.Const(8, 0x20), x), c.Ult(x, c.Const(8, 0x80)))
				plain = c.And(plain, c.And(c.Not(c.Eq(x, c.Const(8, '"'))), c.Not(c.Eq(x, c.Const(8, '\\')))))
				if p.in.branch(plain) {
					out = append(out, x)
					p.i++
					continue
				}
			}
			b := byte(p.in.concInt(x))
			switch {
			case b == '"':
				p.i++
				s := mkStr(out)
				if s.concrete() && !utf8.ValidString(s.s) {
					s = str(strings.ToValidUTF8(s.s, "\uFFFD"))
				}
				return s
			case b < 0x20:
				panic(jsyntax{})
			case b == '\\':
				p.i++
				e := p.at()
				p.i++
				switch e {
				case '"', '\\', '/':
					lit(string(rune(e)))
				case 'b':
					lit("\b")
				case 'f':
					lit("\f")
				case 'n':
					lit("\n")
				case 'r':
					lit("\r")
				case 't':
					lit("\t")
				case 'u':
					h := "\""
					h += "\\u" + p.hex4()
					if p.at() == '\\' && p.i+1 < len(p.e) {
						if t, ok := p.e[p.i+1].(*Term); ok && t.op == OpConst && t.val == 'u' {
							save := p.i
							p.i += 2
							h2 := p.hex4()
							if (h2[0] == 'd' || h2[0] == 'D') && strings.ContainsRune("cdefCDEF", rune(h2[1])) {
								h += "\\u" + h2
							} else {
								p.i = save
							}
						}
					}
					var s string
					if json.Unmarshal([]byte(h+"\""), &s) != nil {
						panic(jsyntax{})
					}
					lit(s)
				default:
					panic(jsyntax{})
				}
			default:
				out = append(out, c.Const(8, uint64(b)))
				p.i++
			}
		}
	}
}

func (p *jparser) hex4() string {
	var s []byte
	for k := 0; k < 4; k++ {
		b := p.at()
		if !(b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F') {
			panic(jsyntax{})
		}
		s = append(s, b)
		p.i++
	}
	return string(s)
}

// ---- unmarshal ----

type jdec struct {
	in   *interp
	err  Iface
	root types.Type
	path []string
	only bool // unknown members are refused
}

// jreader is the state behind a *json.Decoder.
type jreader struct {
	r    Iface
	only bool
}

// save notes that a value does not go into a type.
func (d *jdec) save(n *jnode, t types.Type) {
	if d.err.T == nil {
		d.err = d.mismatch(n, t)
	}
}

// mismatch is an UnmarshalTypeError, of which Type and Offset are left out.
func (d *jdec) mismatch(n *jnode, t types.Type) Iface {
	in := d.in
	et := in.prog.Type("encoding/json", "UnmarshalTypeError")
	v := in.zero(et).(StructV)
	set := func(name, text string) {
		st := et.Underlying().(*types.Struct)
		for i := range v {
			if st.Field(i).Name() == name {
				v[i] = str(text)
			}
		}
	}
	value := kindName(n)
	if n.k == '0' && n.t == nil {
		value += " " + n.num
	}
	set("Value", value)
	set("Field", strings.Join(d.path, "."))
	if len(d.path) > 0 {
		set("Struct", typeName(d.root))
	}
	p := new(Value)
	*p = v
	in.jsonErrs[p] = fmt.Sprintf("json: cannot unmarshal %s into Go value of type %s", value, t)
	return Iface{T: in.ptrType(et), V: p}
}

// at decodes a part of a document.
func (d *jdec) at(name string, f func()) {
	d.path = append(d.path, name)
	f()
	d.path = d.path[:len(d.path)-1]
}

func (in *interp) jUnmarshal(data SliceV, v Iface, only bool) Iface {
	root, ok := in.jParse(data)
	if !ok {
		p := new(Value)
		*p = in.zero(in.prog.Type("encoding/json", "SyntaxError"))
		in.jsonErrs[p] = "invalid JSON text"
		return Iface{T: in.ptrType(in.prog.Type("encoding/json", "SyntaxError")), V: p}
	}
	pt, isP := types.Type(nil), false
	if v.T != nil {
		pt = v.T
		_, isP = pt.Underlying().(*types.Pointer)
	}
	p, _ := v.V.(*Value)
	if !isP || p == nil {
		return in.mkError("json: Unmarshal(nil or non-pointer)")
	}
	d := &jdec{in: in, only: only, root: pt.Underlying().(*types.Pointer).Elem()}
	err := in.catchJSON(func() {
		// the root pointer itself may have methods
		if root.k != 'n' || in.hasMethod(pt, "UnmarshalJSON", 1, 1) {
			if d.viaMethods(root, pt, p) {
				return
			}
		}
		d.into(root, pt.Underlying().(*types.Pointer).Elem(), p, true)
	})
	if err.T != nil {
		return err
	}
	return d.err
}

// viaMethods uses UnmarshalJSON or UnmarshalText of pointer type pt.
func (d *jdec) viaMethods(n *jnode, pt types.Type, p *Value) bool {
	in := d.in
	if in.hasMethod(pt, "UnmarshalJSON", 1, 1) {
		e := in.callMethod(pt, "UnmarshalJSON", p, in.jScalarBytes(n)).(Iface)
		if e.T != nil {
			panic(jsonFail{e})
		}
		return true
	}
	if n.k != 'n' && in.hasMethod(pt, "UnmarshalText", 1, 1) {
		if n.k != '"' {
			d.save(n, pt)
			return true
		}
		e := in.callMethod(pt, "UnmarshalText", p, in.bytesOf(n.s)).(Iface)
		if e.T != nil {
			panic(jsonFail{e})
		}
		return true
	}
	return false
}

// jScalarBytes is the text of a value handed to UnmarshalJSON.
func (in *interp) jScalarBytes(n *jnode) SliceV {
	if n.k == '"' && !n.s.concrete() {
		safe := true
		for _, x := range n.s.e {
			switch y := x.(type) {
			case *Term:
				if y.op != OpConst || y.val < 0x20 || y.val >= 0x80 || strings.IndexByte("\"\\<>&", byte(y.val)) >= 0 {
					safe = false
				}
			case *Opq:
				if y.kind != "time" && y.kind != "dec" {
					safe = false
				}
			}
		}
		if safe {
			q := in.c.Const(8, '"')
			out := SliceV{q}
			out = append(out, n.s.e...)
			return append(out, q)
		}
	}
	return in.jBytes(&jdoc{root: n})
}

func kindName(n *jnode) string {
	switch n.k {
	case '{':
		return "object"
	case '[':
		return "array"
	case '"':
		return "string"
	case '0':
		return "number"
	case 't':
		return "bool"
	}
	return "null"
}

func (d *jdec) into(n *jnode, t types.Type, cell *Value, top bool) {
	in := d.in
	for {
		switch u := t.Underlying().(type) {
		case *types.Interface:
			x, _ := (*cell).(Iface)
			if x.T != nil {
				if pt, ok := x.T.Underlying().(*types.Pointer); ok {
					p, _ := x.V.(*Value)
					_, pp := pt.Elem().Underlying().(*types.Pointer)
					if p != nil && (n.k != 'n' || pp) {
						if d.viaMethods(n, x.T, p) {
							return
						}
						t, cell = pt.Elem(), p
						continue
					}
				}
			}
			if n.k == 'n' {
				in.setCell(cell, Iface{})
				return
			}
			if u.NumMethods() > 0 {
				d.save(n, t)
				return
			}
			in.setCell(cell, d.generic(n))
			return
		case *types.Pointer:
			if n.k == 'n' {
				in.setCell(cell, (*Value)(nil))
				return
			}
			p, _ := (*cell).(*Value)
			if p == nil {
				p = new(Value)
				*p = in.zero(u.Elem())
				in.setCell(cell, p)
			}
			if d.viaMethods(n, t, p) {
				return
			}
			t, cell = u.Elem(), p
			continue
		}
		break
	}
	if !top && typeName(t) != "" {
		if d.viaMethods(n, in.ptrType(t), cell) {
			return
		}
	}
	mismatch := func() { d.save(n, t) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		d.basic(n, t, u, cell, nil, mismatch)
	case *types.Struct:
		switch n.k {
		case 'n':
		case '{':
			d.object(n, t, cell)
		default:
			mismatch()
		}
	case *types.Slice:
		switch n.k {
		case 'n':
			in.setCell(cell, SliceV(nil))
		case '"':
			if !isByteSlice(t) {
				mismatch()
				return
			}
			enc := in.load(in.global(in.prog.Global("encoding/base64", "StdEncoding")))
			f := in.methodByName(in.ptrType(in.prog.Type("encoding/base64", "Encoding")), "DecodeString")
			r := in.callFn(f, []Value{enc, n.s}, nil).(TupleV)
			if e := r[1].(Iface); e.T != nil {
				if d.err.T == nil {
					d.err = e
				}
				return
			}
			in.setCell(cell, r[0])
		case '[':
			old, _ := (*cell).(SliceV)
			s := make(SliceV, len(n.e))
			for i := range s {
				if i < cap(old) && i < len(old[:cap(old)]) {
					s[i] = copyVal(old[:cap(old)][i])
				} else {
					s[i] = in.zero(u.Elem())
				}
			}
			for i := range s {
				d.at(strconv.Itoa(i), func() { d.into(n.e[i], u.Elem(), &s[i], false) })
			}
			in.setCell(cell, s)
		default:
			mismatch()
		}
	case *types.Array:
		switch n.k {
		case 'n':
		case '[':
			a := (*cell).(ArrayV)
			for i := range a {
				if i < len(n.e) {
					d.at(strconv.Itoa(i), func() { d.into(n.e[i], u.Elem(), &a[i], false) })
				} else {
					in.store(&a[i], in.zero(u.Elem()))
				}
			}
		default:
			mismatch()
		}
	case *types.Map:
		switch n.k {
		case 'n':
			in.setCell(cell, (*MapV)(nil))
		case '{':
			if !isString(u.Key()) {
				unsupported("json into %s", t)
			}
			m, _ := (*cell).(*MapV)
			if m == nil {
				m = &MapV{idx: map[string]int{}}
				in.freshMaps[m] = true
				in.setCell(cell, m)
			}
			for _, f := range n.f {
				if f.on != nil && !in.branch(f.on) {
					continue
				}
				e := new(Value)
				*e = in.zero(u.Elem())
				d.at(f.name, func() { d.into(f.v, u.Elem(), e, false) })
				in.mapSet(m, str(f.name), *e)
			}
		default:
			mismatch()
		}
	default:
		mismatch()
	}
}

func (d *jdec) generic(n *jnode) Value {
	in := d.in
	switch n.k {
	case '{':
		m := &MapV{idx: map[string]int{}}
		in.freshMaps[m] = true
		for _, f := range n.f {
			if f.on != nil && !in.branch(f.on) {
				continue
			}
			in.mapSet(m, str(f.name), d.generic(f.v))
		}
		return Iface{T: types.NewMap(types.Typ[types.String], in.anyType()), V: m}
	case '[':
		s := SliceV{}
		for _, x := range n.e {
			s = append(s, d.generic(x))
		}
		return Iface{T: types.NewSlice(in.anyType()), V: s}
	case '"':
		return Iface{T: types.Typ[types.String], V: n.s}
	case 't':
		return Iface{T: types.Typ[types.Bool], V: n.t}
	case '0':
		return Iface{T: types.Typ[types.Float64], V: in.jFloat(n, 64)}
	}
	return Iface{}
}

func (in *interp) anyType() types.Type { return types.NewInterfaceType(nil, nil) }

func (in *interp) jFloat(n *jnode, w int) *Term {
	if n.t == nil {
		f, _ := strconv.ParseFloat(n.num, w)
		return in.c.Const(w, fput(f, w))
	}
	if n.signed {
		return in.c.FOp(OpFFromS, w, n.t)
	}
	return in.c.FOp(OpFFromU, w, n.t)
}

// basic decodes a scalar; on guards a field that may be absent.
func (d *jdec) basic(n *jnode, t types.Type, u *types.Basic, cell *Value, on *Term, mismatch func()) {
	in := d.in
	c := in.c
	set := func(v Value) {
		if on != nil {
			v = c.Ite(on, v.(*Term), (*cell).(*Term))
		}
		in.setCell(cell, v)
	}
	switch n.k {
	case 'n':
		return
	case 't':
		if u.Info()&types.IsBoolean != 0 {
			set(n.t)
			return
		}
	case '"':
		if u.Info()&types.IsString != 0 && on == nil {
			in.setCell(cell, n.s)
			return
		}
	case '0':
		switch {
		case u.Info()&types.IsFloat != 0:
			w, _ := width(u)
			set(in.jFloat(n, w))
			return
		case u.Info()&types.IsInteger != 0:
			w, signed := width(u)
			v, ok := in.jInt(n, w, signed)
			if on != nil {
				ok = c.Or(ok, c.Not(on))
			}
			if in.branch(ok) {
				set(c.Trunc(v, w))
			} else {
				mismatch()
			}
			return
		}
	}
	if on != nil && !in.branch(on) {
		return
	}
	mismatch()
}

// jInt is the integer value of a number node and whether it fits.
func (in *interp) jInt(n *jnode, w int, signed bool) (*Term, *Term) {
	c := in.c
	if n.t == nil {
		b, ok := new(big.Int).SetString(n.num, 10)
		if !ok || (n.num[0] == '-' && !signed) {
			return c.Const(64, 0), c.False()
		}
		if signed {
			if !b.IsInt64() || b.Int64()>>(uint(w)-1) != 0 && b.Int64()>>(uint(w)-1) != -1 {
				return c.Const(64, 0), c.False()
			}
			return c.Const(64, uint64(b.Int64())), c.True()
		}
		if !b.IsUint64() || w < 64 && b.Uint64()>>uint(w) != 0 {
			return c.Const(64, 0), c.False()
		}
		return c.Const(64, b.Uint64()), c.True()
	}
	t := n.t
	k := func(v uint64) *Term { return c.Const(64, v) }
	switch {
	case !signed && !n.signed:
		if w == 64 {
			return t, c.True()
		}
		return t, c.Ult(t, k(uint64(1)<<uint(w)))
	case !signed && n.signed:
		ok := c.Not(c.Extract(t, 63, 63))
		if w < 64 {
			ok = c.And(ok, c.Ult(t, k(uint64(1)<<uint(w))))
		}
		return t, ok
	case signed && !n.signed:
		return t, c.Ult(t, k(uint64(1)<<uint(w-1)))
	}
	if w == 64 {
		return t, c.True()
	}
	lim := int64(1) << uint(w-1)
	return t, c.And(c.Slt(t, k(uint64(lim))), c.Sle(k(uint64(-lim)), t))
}

func (d *jdec) object(n *jnode, t types.Type, cell *Value) {
	in := d.in
	fields := in.jsonFields(t)
	for _, f := range n.f {
		var fi *fieldRef
		for i := range fields {
			if fields[i].name == f.name {
				fi = &fields[i]
				break
			}
		}
		if fi == nil {
			for i := range fields {
				if strings.EqualFold(fields[i].name, f.name) {
					fi = &fields[i]
					break
				}
			}
		}
		if fi == nil {
			if d.only && (f.on == nil || in.branch(f.on)) && d.err.T == nil {
				d.err = in.mkError("json: unknown field " + strconv.Quote(f.name))
			}
			continue
		}
		if fi.quoted {
			unsupported("json string option")
		}
		if f.on != nil {
			if f.on.IsFalse() {
				continue
			}
			if u, ok := fi.typ.Underlying().(*types.Basic); ok && f.on.op == OpConst == false && u.Info()&types.IsString == 0 && !in.customJSON(fi.typ) {
				fc := in.fieldCell(t, cell, fi.idx, true)
				ff := f
				d.at(f.name, func() { d.basic(f.v, fi.typ, u, fc, f.on, func() { d.save(ff.v, fi.typ) }) })
				continue
			}
			if !in.branch(f.on) {
				continue
			}
		}
		fc := in.fieldCell(t, cell, fi.idx, true)
		d.at(f.name, func() { d.into(f.v, fi.typ, fc, false) })
	}
}

func (in *interp) customJSON(t types.Type) bool {
	pt := in.ptrType(t)
	return in.hasMethod(pt, "UnmarshalJSON", 1, 1) || in.hasMethod(pt, "UnmarshalText", 1, 1)
}

func init() {
	I := func(name string, f intrinsic) { intrinsics[name] = f }
	marshal := func(in *interp, v Iface, d *jdoc) Value {
		err := in.catchJSON(func() {
			d.root = &jnode{k: 'n'}
			if v.T != nil {
				d.root = in.jEncode(v.T, v.V, nil)
			}
		})
		if err.T != nil {
			return TupleV{SliceV(nil), err}
		}
		return TupleV{in.jBytes(d), Iface{}}
	}
	I("encoding/json.Marshal", func(in *interp, cc *callCtx, a []Value) Value {
		in.st.stub("encoding/json.Marshal (document model)")
		return marshal(in, a[0].(Iface), &jdoc{})
	})
	I("encoding/json.MarshalIndent", func(in *interp, cc *callCtx, a []Value) Value {
		in.st.stub("encoding/json.Marshal (document model)")
		return marshal(in, a[0].(Iface), &jdoc{pretty: true, prefix: in.concreteString(a[1].(*Str)), indent: in.concreteString(a[2].(*Str))})
	})
	I("encoding/json.Unmarshal", func(in *interp, cc *callCtx, a []Value) Value {
		in.st.stub("encoding/json.Unmarshal (document model)")
		return in.jUnmarshal(a[0].(SliceV), a[1].(Iface), false)
	})
	// A decoder reads one document, which is all there is to read.
	I("encoding/json.NewDecoder", func(in *interp, cc *callCtx, a []Value) Value {
		if in.spec > 0 {
			panic(abortSpec{})
		}
		p := new(Value)
		*p = &jreader{r: a[0].(Iface)}
		return p
	})
	reader := func(in *interp, v Value) *jreader {
		d, ok := (*v.(*Value)).(*jreader)
		if !ok || in.spec > 0 {
			unsupported("json decoder use")
		}
		return d
	}
	I("(*encoding/json.Decoder).DisallowUnknownFields", func(in *interp, cc *callCtx, a []Value) Value {
		reader(in, a[0]).only = true
		return nil
	})
	I("(*encoding/json.Decoder).Decode", func(in *interp, cc *callCtx, a []Value) Value {
		d := reader(in, a[0])
		r := in.callFn(in.prog.Func("io", "ReadAll"), []Value{d.r}, nil).(TupleV)
		if e := r[1].(Iface); e.T != nil {
			return e
		}
		b, _ := r[0].(SliceV)
		if len(b) == 0 {
			return in.load(in.global(in.prog.Global("io", "EOF")))
		}
		return in.jUnmarshal(b, a[1].(Iface), d.only)
	})
	I("encoding/json.Valid", func(in *interp, cc *callCtx, a []Value) Value {
		_, ok := in.jParse(a[0].(SliceV))
		return in.c.Bool(ok)
	})
	for _, n := range []string{"UnmarshalTypeError", "SyntaxError"} {
		I("(*encoding/json."+n+").Error", func(in *interp, cc *callCtx, a []Value) Value {
			if s, ok := in.jsonErrs[a[0].(*Value)]; ok {
				return str(s)
			}
			return str("json: error")
		})
	}
	raw := func(in *interp, cc *callCtx, a []Value) Value {
		s, _ := a[0].(SliceV)
		if s == nil {
			return TupleV{in.bytesOf(str("null")), Iface{}}
		}
		return TupleV{s, Iface{}}
	}
	unraw := func(in *interp, cc *callCtx, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			return in.mkError("json.RawMessage: UnmarshalJSON on nil pointer")
		}
		in.setCell(p, append(SliceV{}, a[1].(SliceV)...))
		return Iface{}
	}
	for _, n := range []string{"encoding/json.RawMessage", "encoding/json/jsontext.Value"} {
		I("("+n+").MarshalJSON", raw)
		I("(*"+n+").UnmarshalJSON", unraw)
	}
}
