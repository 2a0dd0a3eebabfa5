package engine

// x/text looks a rune up in a character set by binary search, which has one path
// per character. For Latin-1, whose runes are its bytes, the result is spelled
// out instead; any other set, and any text which is not well-formed or not
// Latin-1, takes the real code.
func init() {
	intrinsics["(golang.org/x/text/encoding/charmap.charmapEncoder).Transform"] = latin1Encode
}

// identityCharmap tells whether a *charmap.Charmap maps each rune below 0x100 to
// the byte of the same value.
func (in *interp) identityCharmap(v Value) bool {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return false
	}
	st, ok := (*p).(StructV)
	if !ok || len(st) != 7 {
		return false
	}
	enc, ok := st[6].(ArrayV)
	if !ok || len(enc) != 256 {
		return false
	}
	if t, ok := st[2].(*Term); !ok || t.op != OpConst || t.val != 1 {
		return false
	}
	if t, ok := st[3].(*Term); !ok || t.op != OpConst || t.val != 0x80 {
		return false
	}
	for i, x := range enc {
		t, ok := x.(*Term)
		if !ok || t.op != OpConst || t.val != uint64(i)<<24|uint64(i) {
			return false
		}
	}
	return true
}

func latin1Encode(in *interp, cc *callCtx, args []Value) Value {
	m, ok := args[0].(StructV)
	if !ok || len(m) != 2 || !in.identityCharmap(m[1]) {
		return declined{}
	}
	dst, ok1 := args[1].(SliceV)
	src, ok2 := args[2].(SliceV)
	if !ok1 || !ok2 || hasOpq(src) || len(dst) < len(src) {
		return declined{}
	}
	c := in.c
	var out []Value
	for i := 0; i < len(src); {
		b := src[i].(*Term)
		if in.branch(c.Ult(b, c.Const(8, 0x80))) {
			out = append(out, b)
			i++
			continue
		}
		if i+1 >= len(src) {
			return declined{}
		}
		d := src[i+1].(*Term)
		if !in.branch(c.And(c.Eq(c.Extract(b, 7, 2), c.Const(6, 0x30)), c.And(c.Eq(c.Extract(d, 7, 6), c.Const(2, 2)), c.Not(c.Eq(c.Extract(b, 1, 1), c.Const(1, 0)))))) {
			return declined{}
		}
		out = append(out, c.Concat(c.Extract(b, 1, 0), c.Extract(d, 5, 0)))
		i += 2
	}
	copy(dst, out)
	in.st.stub("Latin-1 encoding")
	return TupleV{c.Const(64, uint64(len(out))), c.Const(64, uint64(len(src))), Iface{}}
}

func init() {
	intrinsics["internal/stringslite.Clone"] = func(in *interp, cc *callCtx, args []Value) Value { return args[0] }
	intrinsics["strings.Clone"] = intrinsics["internal/stringslite.Clone"]
}
