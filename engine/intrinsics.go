package engine

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func findIntrinsic(name string, fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "(*log.Logger).") || strings.HasPrefix(name, "log.") {
		return logIntrinsic
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		f := atomicIntrinsic(name)
		if f == nil {
			return nil
		}
		return func(in *interp, cc *callCtx, a []Value) Value {
			in.synced++
			defer func() { in.synced-- }()
			return f(in, cc, a)
		}
	}
	return nil
}

func (in *interp) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

// Logging has no effect on results: calls do nothing.
func logIntrinsic(in *interp, cc *callCtx, args []Value) Value {
	r := cc.fn.Signature.Results()
	if r.Len() == 1 {
		if p, ok := r.At(0).Type().(*types.Pointer); ok {
			v := new(Value)
			*v = in.zero(p.Elem())
			return v
		}
	}
	in.st.stub("log")
	return in.zeroResults(cc.fn)
}

func atomicIntrinsic(name string) intrinsic {
	base := name[strings.LastIndex(name, ".")+1:]
	if strings.Contains(name, "(") {
		return nil // typed wrappers call the functions below
	}
	switch {
	case strings.HasPrefix(base, "Load"):
		return func(in *interp, cc *callCtx, args []Value) Value { return in.load(args[0]) }
	case strings.HasPrefix(base, "Store"):
		return func(in *interp, cc *callCtx, args []Value) Value { in.storeTo(args[0], args[1]); return nil }
	case strings.HasPrefix(base, "Add"):
		return func(in *interp, cc *callCtx, args []Value) Value {
			v := in.c.Add(in.load(args[0]).(*Term), args[1].(*Term))
			in.storeTo(args[0], v)
			return v
		}
	case strings.HasPrefix(base, "Swap"):
		return func(in *interp, cc *callCtx, args []Value) Value {
			v := in.load(args[0])
			in.storeTo(args[0], args[1])
			return v
		}
	case strings.HasPrefix(base, "CompareAndSwap"):
		return func(in *interp, cc *callCtx, args []Value) Value {
			if in.branch(in.eqVal(in.load(args[0]), args[1])) {
				in.storeTo(args[0], args[2])
				return in.c.True()
			}
			return in.c.False()
		}
	}
	return nil
}

func (in *interp) opq(o *Opq) *Opq {
	in.st.opqLive = true
	return o
}

func (in *interp) decStr(t *Term, signed bool) *Str {
	if t.op == OpConst {
		if signed {
			return str(strconv.FormatInt(t.SVal(), 10))
		}
		return str(strconv.FormatUint(t.val, 10))
	}
	// non-negative values print the same whichever way they are typed
	if signed && t.bits[t.w-1] == 0 {
		signed = false
	}
	spec := "s"
	if !signed {
		spec = "u"
		t = in.c.Zext(t, 64)
	} else {
		t = in.c.Sext(t, 64)
	}
	return &Str{e: []Value{in.opq(&Opq{kind: "dec", spec: spec, args: []*Term{t}})}}
}

// onlyOpq returns the single opaque chunk a string consists of.
func onlyOpq(s *Str, kind string) *Opq {
	if s.e == nil || len(s.e) != 1 {
		return nil
	}
	o, ok := s.e[0].(*Opq)
	if !ok || o.kind != kind {
		return nil
	}
	return o
}

func (in *interp) errNil() Value { return Iface{} }

func (in *interp) mkError(msg string) Iface {
	f := in.prog.Func("errors", "New")
	return in.callFn(f, []Value{str(msg)}, nil).(Iface)
}

// concreteString returns the text of s, fixing symbolic parts.
func (in *interp) concreteString(s *Str) string {
	s = in.concStr(s)
	if s.e == nil {
		return s.s
	}
	b := make([]byte, len(s.e))
	for i, x := range s.e {
		b[i] = byte(in.fixValue(x.(*Term)))
	}
	return string(b)
}

func renderTime(spec string, sec int64) string {
	layout, loc, _ := strings.Cut(spec, "|")
	t := time.Unix(sec, 0)
	if loc == "utc" {
		t = t.UTC()
	}
	if layout == "String" {
		return t.String()
	}
	return t.Format(layout)
}

// timeParts takes a time.Time value apart: unix seconds, and whether it is UTC.
// Only times without a monotonic reading and with zero nanoseconds are handled.
func (in *interp) timeParts(v Value) (*Term, string, bool) {
	s, ok := v.(StructV)
	if !ok || len(s) != 3 {
		return nil, "", false
	}
	wall, ok := s[0].(*Term)
	if !ok || wall.op != OpConst || wall.val != 0 {
		return nil, "", false
	}
	ext := s[1].(*Term)
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	sec := in.c.Sub(ext, in.c.Const(64, uint64(unixToInternal)))
	loc := "utc"
	if p, ok := s[2].(*Value); ok && p != nil {
		lg := in.prog.Global("time", "localLoc")
		if lg == nil || in.global(lg) != p {
			return nil, "", false
		}
		// The sandbox and the replay run with TZ=UTC.
		loc = "local"
	}
	return sec, loc, true
}

func (in *interp) timeFmt(v Value, layout string) (*Str, bool) {
	sec, loc, ok := in.timeParts(v)
	if !ok {
		return nil, false
	}
	if sec.op == OpConst {
		return str(renderTime(layout+"|"+loc, int64(sec.val))), true
	}
	// local and UTC texts coincide (TZ=UTC) except for String
	if layout != "String" {
		loc = "utc"
	}
	return &Str{e: []Value{in.opq(&Opq{kind: "time", spec: layout + "|" + loc, args: []*Term{sec}})}}, true
}

func (in *interp) timeFrom(sec *Term) StructV {
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	return StructV{in.c.Const(64, 0), in.c.Add(sec, in.c.Const(64, uint64(unixToInternal))), (*Value)(nil)}
}

func (in *interp) parseTime(s *Str) (Value, Iface) {
	if o := onlyOpq(s, "time"); o != nil && strings.HasPrefix(o.spec, time.RFC3339+"|") {
		return in.timeFrom(o.args[0]), Iface{}
	}
	txt := in.concreteString(s)
	t, err := time.Parse(time.RFC3339, txt)
	if err != nil {
		return in.timeFrom(in.c.Const(64, 0)), in.mkError(err.Error())
	}
	if t.Nanosecond() != 0 {
		unsupported("fractional seconds in a time")
	}
	return in.timeFrom(in.c.Const(64, uint64(t.Unix()))), Iface{}
}

func init() {
	I := func(name string, f intrinsic) { intrinsics[name] = f }
	nop := func(in *interp, cc *callCtx, args []Value) Value { return in.zeroResults(cc.fn) }

	// --- strings.Builder (text kept in its buf field) ---
	bfield := func(in *interp, args []Value) *Value {
		p := args[0].(*Value)
		if p == nil {
			in.gopanic(nilDeref)
		}
		return &(*p).(StructV)[1]
	}
	bget := func(in *interp, args []Value) *Str {
		switch x := (*bfield(in, args)).(type) {
		case *Str:
			return x
		case SliceV:
			return in.strOf(x)
		}
		return emptyStr
	}
	badd := func(in *interp, args []Value, s *Str) {
		in.setCell(bfield(in, args), in.concat(bget(in, args), s))
	}
	I("(*strings.Builder).WriteString", func(in *interp, cc *callCtx, args []Value) Value {
		s := args[1].(*Str)
		badd(in, args, s)
		n := len(s.s)
		if s.e != nil {
			n = len(s.e)
		}
		return TupleV{in.c.Const(64, uint64(n)), Iface{}}
	})
	I("(*strings.Builder).Write", func(in *interp, cc *callCtx, args []Value) Value {
		s := args[1].(SliceV)
		badd(in, args, in.strOf(s))
		return TupleV{in.c.Const(64, uint64(len(s))), Iface{}}
	})
	I("(*strings.Builder).WriteByte", func(in *interp, cc *callCtx, args []Value) Value {
		badd(in, args, mkStr([]Value{args[1]}))
		return Iface{}
	})
	I("(*strings.Builder).WriteRune", func(in *interp, cc *callCtx, args []Value) Value {
		s := in.runeStr(args[1].(*Term))
		badd(in, args, s)
		return TupleV{in.c.Const(64, uint64(in.strLen(s))), Iface{}}
	})
	I("(*strings.Builder).String", func(in *interp, cc *callCtx, args []Value) Value { return bget(in, args) })
	I("(*strings.Builder).Len", func(in *interp, cc *callCtx, args []Value) Value {
		return in.c.Const(64, uint64(in.strLen(bget(in, args))))
	})
	I("(*strings.Builder).Grow", nop)
	I("(*strings.Builder).Cap", nop)
	I("(*strings.Builder).Reset", func(in *interp, cc *callCtx, args []Value) Value {
		in.setCell(bfield(in, args), SliceV(nil))
		return nil
	})

	// --- bytealg ---
	idxByte := func(in *interp, e []Value, b *Term) Value {
		for i, x := range e {
			t, ok := x.(*Term)
			if !ok {
				unsupported("search in opaque text")
			}
			if in.branch(in.c.Eq(t, b)) {
				return in.c.Const(64, uint64(i))
			}
		}
		return in.c.Const(64, ^uint64(0))
	}
	lastIdxByte := func(in *interp, e []Value, b *Term) Value {
		for i := len(e) - 1; i >= 0; i-- {
			if in.branch(in.c.Eq(in.asTerm(e[i]), b)) {
				return in.c.Const(64, uint64(i))
			}
		}
		return in.c.Const(64, ^uint64(0))
	}
	count := func(in *interp, e []Value, b *Term) Value {
		r := in.c.Const(64, 0)
		for _, x := range e {
			r = in.c.Add(r, in.c.Zext(in.c.Eq(in.asTerm(x), b), 64))
		}
		return r
	}
	index := func(in *interp, a, b []Value) Value {
		for i := 0; i+len(b) <= len(a); i++ {
			eq := in.c.True()
			for j := range b {
				eq = in.c.And(eq, in.c.Eq(in.asTerm(a[i+j]), in.asTerm(b[j])))
			}
			if in.branch(eq) {
				return in.c.Const(64, uint64(i))
			}
		}
		return in.c.Const(64, ^uint64(0))
	}
	elems := func(in *interp, v Value) []Value {
		switch x := v.(type) {
		case SliceV:
			return x
		case *Str:
			return in.strElems(in.concStr(x))
		}
		unsupported("bytes of %v", descr(v))
		return nil
	}
	for _, n := range []string{"IndexByte", "IndexByteString"} {
		I("internal/bytealg."+n, func(in *interp, cc *callCtx, a []Value) Value { return idxByte(in, elems(in, a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"LastIndexByte", "LastIndexByteString"} {
		I("internal/bytealg."+n, func(in *interp, cc *callCtx, a []Value) Value { return lastIdxByte(in, elems(in, a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"Count", "CountString"} {
		I("internal/bytealg."+n, func(in *interp, cc *callCtx, a []Value) Value { return count(in, elems(in, a[0]), a[1].(*Term)) })
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index", "internal/stringslite.Index"} {
		I(n, func(in *interp, cc *callCtx, a []Value) Value { return index(in, elems(in, a[0]), elems(in, a[1])) })
	}
	I("internal/bytealg.Equal", func(in *interp, cc *callCtx, a []Value) Value {
		return in.strEq(in.strOf(a[0].(SliceV)), in.strOf(a[1].(SliceV)))
	})
	cmp := func(in *interp, a, b *Str) Value {
		if in.branch(in.strLess(a, b)) {
			return in.c.Const(64, ^uint64(0))
		}
		return in.c.Zext(in.c.Not(in.strEq(a, b)), 64)
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare"} {
		I(n, func(in *interp, cc *callCtx, a []Value) Value {
			return cmp(in, in.strOf(a[0].(SliceV)), in.strOf(a[1].(SliceV)))
		})
	}
	I("internal/bytealg.CompareString", func(in *interp, cc *callCtx, a []Value) Value { return cmp(in, a[0].(*Str), a[1].(*Str)) })
	I("internal/bytealg.MakeNoZero", func(in *interp, cc *callCtx, a []Value) Value {
		return in.makeSlice(types.Typ[types.Uint8], a[0].(*Term), a[0].(*Term))
	})

	// --- strings: shortcuts on opaque text ---
	I("strings.FieldsFunc", func(in *interp, cc *callCtx, a []Value) Value {
		s, f := a[0].(*Str), a[1].(*FuncV)
		if s.e == nil || !hasOpq(s.e) {
			return declined{}
		}
		is := func(r *Term) *Term { return in.callFunc(f, []Value{r}, nil).(*Term) }
		for _, x := range s.e { // numbers are never separators, other bytes are ASCII
			switch y := x.(type) {
			case *Opq:
				if y.kind != "dec" {
					return declined{}
				}
				for _, d := range "0123456789-" {
					if r := is(in.c.Const(32, uint64(d))); !r.IsFalse() {
						return declined{}
					}
				}
			case *Term:
				if activeBits(y) == 8 && in.branch(in.c.Ule(in.c.Const(8, 0x80), y)) {
					return declined{}
				}
			}
		}
		out := SliceV{}
		var cur []Value
		flush := func() {
			if len(cur) > 0 {
				out = append(out, mkStr(cur))
			}
			cur = nil
		}
		for _, x := range s.e {
			if t, ok := x.(*Term); ok && in.branch(is(in.c.Zext(t, 32))) {
				flush()
				continue
			}
			cur = append(cur, x)
		}
		flush()
		return out
	})
	I("strings.TrimSpace", func(in *interp, cc *callCtx, a []Value) Value {
		s := a[0].(*Str)
		if s.e != nil && hasOpq(s.e) {
			if onlyOpq(s, "dec") != nil || onlyOpq(s, "time") != nil {
				return s
			}
			if len(s.e) == 1 {
				return s
			}
			// literal ends that are not spaces
			ends := []Value{s.e[0], s.e[len(s.e)-1]}
			for _, x := range ends {
				if t, ok := x.(*Term); ok && (t.op != OpConst || t.val <= ' ' || t.val >= 0x80) {
					return in.trimLit(s)
				}
			}
			return s
		}
		return declined{}
	})
	I("bytes.TrimSpace", func(in *interp, cc *callCtx, a []Value) Value {
		s := a[0].(SliceV)
		if in.st.opqLive && hasOpq(s) {
			return in.bytesOf(in.trimLit(&Str{e: s}))
		}
		return declined{}
	})

	// --- strconv ---
	I("strconv.FormatUint", func(in *interp, cc *callCtx, a []Value) Value { return in.fmtInt(a[0].(*Term), a[1].(*Term), false) })
	I("strconv.FormatInt", func(in *interp, cc *callCtx, a []Value) Value { return in.fmtInt(a[0].(*Term), a[1].(*Term), true) })
	I("strconv.Itoa", func(in *interp, cc *callCtx, a []Value) Value { return in.decStr(a[0].(*Term), true) })
	appendI := func(signed bool) intrinsic {
		return func(in *interp, cc *callCtx, a []Value) Value {
			s := in.fmtInt(a[1].(*Term), a[2].(*Term), signed).(*Str)
			return append(append(SliceV{}, a[0].(SliceV)...), in.strElems(s)...)
		}
	}
	I("strconv.AppendInt", appendI(true))
	I("strconv.AppendUint", appendI(false))
	parse := func(signed bool) intrinsic {
		return func(in *interp, cc *callCtx, a []Value) Value {
			s := a[0].(*Str)
			o := onlyOpq(s, "dec")
			if o == nil {
				if s.e != nil && hasOpq(s.e) {
					a[0] = in.concStr(s)
				}
				return declined{}
			}
			base, bits := in.concInt(a[1].(*Term)), in.concInt(a[2].(*Term))
			if base != 10 && base != 0 {
				a[0] = in.concStr(s)
				return declined{}
			}
			return in.parseDec(o, int(bits), signed, a)
		}
	}
	I("strconv.ParseUint", parse(false))
	I("strconv.ParseInt", parse(true))
	I("strconv.Atoi", func(in *interp, cc *callCtx, a []Value) Value {
		s := a[0].(*Str)
		o := onlyOpq(s, "dec")
		if o == nil {
			if s.e != nil && hasOpq(s.e) {
				a[0] = in.concStr(s)
			}
			return declined{}
		}
		return in.parseDec(o, 64, true, a)
	})
	I("strconv.Quote", func(in *interp, cc *callCtx, a []Value) Value {
		s := a[0].(*Str)
		if s.concrete() {
			return str(strconv.Quote(s.s))
		}
		return declined{}
	})

	// --- math ---
	I("math.Float64bits", func(in *interp, cc *callCtx, a []Value) Value { return a[0] })
	I("math.Float64frombits", func(in *interp, cc *callCtx, a []Value) Value { return a[0] })
	I("math.Float32bits", func(in *interp, cc *callCtx, a []Value) Value { return a[0] })
	I("math.Float32frombits", func(in *interp, cc *callCtx, a []Value) Value { return a[0] })
	f1 := func(op Op) intrinsic {
		return func(in *interp, cc *callCtx, a []Value) Value { return in.c.FOp(op, 64, a[0].(*Term)) }
	}
	I("math.Ceil", f1(OpFCeil))
	I("math.Floor", f1(OpFFloor))
	I("math.Trunc", f1(OpFTrunc))
	I("math.Round", f1(OpFRound))

	// --- sync ---
	hold := func(n int) intrinsic {
		return func(in *interp, cc *callCtx, a []Value) Value {
			if in.spec > 0 {
				panic(abortSpec{})
			}
			in.synced += n
			return nil
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		I("(*sync."+t+").Lock", hold(1))
		I("(*sync."+t+").Unlock", hold(-1))
	}
	for _, n := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.ReleaseMerge"} {
		I(n, nop)
	}
	I("(*sync.Once).Do", func(in *interp, cc *callCtx, a []Value) Value {
		p := a[0].(*Value)
		if in.onceDone(p) {
			return nil
		}
		in.synced++
		in.callFunc(a[1].(*FuncV), nil, nil)
		in.synced--
		return nil
	})
	// A pool of the code under test gives back what was put into it last.
	I("(*sync.Pool).Put", func(in *interp, cc *callCtx, a []Value) Value {
		if in.spec > 0 {
			panic(abortSpec{})
		}
		if v, ok := a[1].(Iface); in.tol == 0 && underTest(cc.fr) && ok && v.T != nil {
			if in.pools == nil {
				in.pools = map[*Value][]Value{}
			}
			p := a[0].(*Value)
			in.pools[p] = append(in.pools[p], v)
		}
		return nil
	})
	I("(*sync.Pool).Get", func(in *interp, cc *callCtx, a []Value) Value {
		if in.spec > 0 {
			panic(abortSpec{})
		}
		if l := in.pools[a[0].(*Value)]; len(l) > 0 {
			in.pools[a[0].(*Value)] = l[:len(l)-1]
			return l[len(l)-1]
		}
		s := (*a[0].(*Value)).(StructV)
		f, ok := s[len(s)-1].(*FuncV)
		if !ok || f == nil {
			return Iface{}
		}
		return in.callFunc(f, nil, nil)
	})

	syncMap := func(name string, f func(in *interp, m *MapV, a []Value) Value) {
		I("(*sync.Map)."+name, func(in *interp, cc *callCtx, a []Value) Value {
			if in.spec > 0 {
				panic(abortSpec{})
			}
			return f(in, in.syncMap(a[0].(*Value)), a[1:])
		})
	}
	load := func(in *interp, m *MapV, k Value) (Value, Value) {
		if i := in.mapFind(m, k); i >= 0 {
			return m.vals[i], in.c.True()
		}
		return Iface{}, in.c.False()
	}
	store := func(in *interp, m *MapV, k, v Value) {
		if in.shared != nil {
			in.shared.escape(k)
			in.shared.escape(v)
		}
		in.mapSet(m, k, v)
	}
	syncMap("Load", func(in *interp, m *MapV, a []Value) Value {
		v, ok := load(in, m, a[0])
		return TupleV{v, ok}
	})
	syncMap("Store", func(in *interp, m *MapV, a []Value) Value {
		store(in, m, a[0], a[1])
		return nil
	})
	syncMap("LoadOrStore", func(in *interp, m *MapV, a []Value) Value {
		if i := in.mapFind(m, a[0]); i >= 0 {
			return TupleV{m.vals[i], in.c.True()}
		}
		store(in, m, a[0], a[1])
		return TupleV{a[1], in.c.False()}
	})
	syncMap("Swap", func(in *interp, m *MapV, a []Value) Value {
		v, ok := load(in, m, a[0])
		store(in, m, a[0], a[1])
		return TupleV{v, ok}
	})
	syncMap("LoadAndDelete", func(in *interp, m *MapV, a []Value) Value {
		v, ok := load(in, m, a[0])
		in.mapDelete(m, a[0])
		return TupleV{v, ok}
	})
	syncMap("Delete", func(in *interp, m *MapV, a []Value) Value {
		in.mapDelete(m, a[0])
		return nil
	})
	syncMap("Clear", func(in *interp, m *MapV, a []Value) Value {
		for len(m.keys) > 0 {
			in.mapDelete(m, m.keys[0])
		}
		return nil
	})
	syncMap("Range", func(in *interp, m *MapV, a []Value) Value {
		keys, vals := append([]Value(nil), m.keys...), append([]Value(nil), m.vals...)
		for i := range keys {
			if !in.branch(in.callFunc(a[0].(*FuncV), []Value{keys[i], vals[i]}, nil).(*Term)) {
				break
			}
		}
		return nil
	})

	// --- errors ---
	I("errors.Is", func(in *interp, cc *callCtx, a []Value) Value {
		return in.c.Bool(in.errorsIs(a[0].(Iface), a[1].(Iface)))
	})
	I("errors.As", func(in *interp, cc *callCtx, a []Value) Value {
		return in.c.Bool(in.errorsAs(a[0].(Iface), a[1].(Iface)))
	})

	// --- time ---
	I("(time.Time).String", func(in *interp, cc *callCtx, a []Value) Value {
		if s, ok := in.timeFmt(a[0], "String"); ok {
			return s
		}
		unsupported("text of a time")
		return nil
	})
	I("(time.Time).Format", func(in *interp, cc *callCtx, a []Value) Value {
		l := a[1].(*Str)
		if s, ok := in.timeFmt(a[0], l.s); ok && l.concrete() {
			return s
		}
		unsupported("text of a time")
		return nil
	})
	I("(time.Time).MarshalText", func(in *interp, cc *callCtx, a []Value) Value {
		if s, ok := in.timeFmt(a[0], time.RFC3339); ok {
			return TupleV{in.bytesOf(s), Iface{}}
		}
		unsupported("text of a time")
		return nil
	})
	I("(time.Time).MarshalJSON", func(in *interp, cc *callCtx, a []Value) Value {
		if s, ok := in.timeFmt(a[0], time.RFC3339); ok {
			return TupleV{in.bytesOf(in.concat(in.concat(str("\""), s), str("\""))), Iface{}}
		}
		unsupported("text of a time")
		return nil
	})
	I("(*time.Time).UnmarshalText", func(in *interp, cc *callCtx, a []Value) Value {
		p := a[0].(*Value)
		t, err := in.parseTime(in.strOf(a[1].(SliceV)))
		if err.T == nil {
			in.store(p, t)
		}
		return err
	})
	I("(*time.Time).UnmarshalJSON", func(in *interp, cc *callCtx, a []Value) Value {
		p := a[0].(*Value)
		s := a[1].(SliceV)
		st := in.strOf(s)
		if st.concrete() && st.s == "null" {
			return Iface{}
		}
		n := len(s)
		q := func(v Value) bool { t, ok := v.(*Term); return ok && t.op == OpConst && t.val == '"' }
		if n < 2 || !q(s[0]) || !q(s[n-1]) {
			return in.mkError("Time.UnmarshalJSON: input is not a JSON string")
		}
		t, err := in.parseTime(in.strOf(s[1 : n-1]))
		if err.T == nil {
			in.store(p, t)
		}
		return err
	})

	// --- os: output is collected, input comes from the harness ---
	I("os.NewFile", func(in *interp, cc *callCtx, a []Value) Value {
		p := new(Value)
		*p = StructV{a[0]}
		return p
	})
	I("(*os.File).Write", func(in *interp, cc *callCtx, a []Value) Value {
		s := a[1].(SliceV)
		in.writeOut(a[0].(*Value), s)
		return TupleV{in.c.Const(64, uint64(len(s))), Iface{}}
	})
	I("(*os.File).Read", func(in *interp, cc *callCtx, a []Value) Value {
		if in.spec > 0 {
			panic(abortSpec{})
		}
		b := a[1].(SliceV)
		n := copy(b, in.stdin)
		if n == 0 && len(b) > 0 {
			return TupleV{in.c.Const(64, 0), *in.global(in.prog.Global("io", "EOF"))}
		}
		in.stdin = in.stdin[n:]
		return TupleV{in.c.Const(64, uint64(n)), Iface{}}
	})
	I("(*os.File).WriteString", func(in *interp, cc *callCtx, a []Value) Value {
		s := in.bytesOf(a[1].(*Str))
		in.writeOut(a[0].(*Value), s)
		return TupleV{in.c.Const(64, uint64(len(s))), Iface{}}
	})
	I("os.Exit", func(in *interp, cc *callCtx, a []Value) Value {
		panic(targetPanic{Iface{T: types.Typ[types.String], V: str("os.Exit")}})
	})
}

// trimLit trims literal ASCII white space around opaque text.
func (in *interp) trimLit(s *Str) *Str {
	e := s.e
	sp := func(v Value) bool {
		t, ok := v.(*Term)
		if !ok {
			return false
		}
		c := in.c
		k := func(b byte) *Term { return c.Eq(t, c.Const(8, uint64(b))) }
		return in.branch(c.Or(k(' '), c.Or(k('\n'), c.Or(k('\t'), c.Or(k('\r'), c.Or(k('\v'), k('\f')))))))
	}
	for len(e) > 0 && sp(e[0]) {
		e = e[1:]
	}
	for len(e) > 0 && sp(e[len(e)-1]) {
		e = e[:len(e)-1]
	}
	return mkStr(append([]Value{}, e...))
}

// onceDone records the first use of a sync.Once; uses by package initialisers
// persist, others last for the path.
func (in *interp) onceDone(p *Value) bool {
	if in.onces[p] || in.initOnces[p] {
		return true
	}
	if in.tol > 0 {
		in.initOnces[p] = true
	} else {
		in.onces[p] = true
	}
	return false
}

func (in *interp) fmtInt(t, base *Term, signed bool) Value {
	b := int(in.concInt(base))
	if b == 10 {
		return in.decStr(t, signed)
	}
	if t.op == OpConst {
		if signed {
			return str(strconv.FormatInt(t.SVal(), b))
		}
		return str(strconv.FormatUint(t.val, b))
	}
	if b == 16 && !signed {
		return &Str{e: []Value{in.opq(&Opq{kind: "fmt", spec: "u|%x", args: []*Term{in.c.Zext(t, 64)}})}}
	}
	return declined{}
}

// parseDec is the value of a decimal text given as a term.
func (in *interp) parseDec(o *Opq, bits int, signed bool, a []Value) Value {
	c := in.c
	if bits == 0 {
		bits = 64
	}
	t := o.args[0]
	var ok *Term
	oSigned := o.spec == "s"
	switch {
	case !oSigned && !signed:
		if bits < 64 {
			ok = c.Ult(t, c.Const(64, uint64(1)<<uint(bits)))
		} else {
			ok = c.True()
		}
	case !oSigned && signed:
		ok = c.Ult(t, c.Const(64, uint64(1)<<uint(bits-1)))
	case oSigned && signed:
		if bits == 64 {
			ok = c.True()
		} else {
			lim := int64(1) << uint(bits-1)
			ok = c.And(c.Slt(t, c.Const(64, uint64(lim))), c.Sle(c.Const(64, uint64(-lim)), t))
		}
	default: // signed text, unsigned target
		ok = c.Not(c.Extract(t, 63, 63))
		if bits < 64 {
			ok = c.And(ok, c.Ult(t, c.Const(64, uint64(1)<<uint(bits))))
		}
	}
	if in.branch(ok) {
		return TupleV{t, Iface{}}
	}
	a[0] = in.concStr(&Str{e: []Value{o}})
	return declined{}
}

func (in *interp) unwrapErr(e Iface) []Iface {
	if f := in.methodByName(e.T, "Unwrap"); f != nil && f.Signature.Params().Len() == 0 {
		switch r := in.callFn(f, []Value{e.V}, nil).(type) {
		case Iface:
			return []Iface{r}
		case SliceV:
			var out []Iface
			for _, x := range r {
				out = append(out, x.(Iface))
			}
			return out
		}
	}
	return nil
}

func (in *interp) errorsIs(e, target Iface) bool {
	if e.T == nil || target.T == nil {
		return e.T == nil && target.T == nil
	}
	if types.Comparable(target.T) && in.identical(e.T, target.T) && in.branch(in.eqVal(e, target)) {
		return true
	}
	if f := in.methodByName(e.T, "Is"); f != nil && f.Signature.Params().Len() == 1 {
		if in.branch(in.callFn(f, []Value{e.V, target}, nil).(*Term)) {
			return true
		}
	}
	for _, u := range in.unwrapErr(e) {
		if u.T != nil && in.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (in *interp) errorsAs(e, target Iface) bool {
	if e.T == nil {
		return false
	}
	pt, ok := target.T.(*types.Pointer)
	if !ok {
		in.gopanic("errors: target must be a non-nil pointer")
	}
	want := pt.Elem()
	if it, ok := want.Underlying().(*types.Interface); ok {
		if in.implements(e.T, it) {
			in.storeTo(target.V, e)
			return true
		}
	} else if in.identical(e.T, want) {
		in.storeTo(target.V, e.V)
		return true
	}
	for _, u := range in.unwrapErr(e) {
		if in.errorsAs(u, target) {
			return true
		}
	}
	return false
}

func (in *interp) writeOut(f *Value, s SliceV) {
	fd := uint64(1)
	if f != nil {
		if st, ok := (*f).(StructV); ok && len(st) == 1 {
			if t, ok := st[0].(*Term); ok && t.op == OpConst {
				fd = t.val
			}
		}
	}
	if fd == 1 {
		in.stdout = append(in.stdout, s...)
	} else {
		in.stderr = append(in.stderr, s...)
	}
}

// ---- fmt ----

func (in *interp) sliceArgs(v Value) []Iface {
	s, ok := v.(SliceV)
	if !ok {
		unsupported("variadic arguments %v", descr(v))
	}
	out := make([]Iface, len(s))
	for i, x := range s {
		out[i] = x.(Iface)
	}
	return out
}

// sprintf models fmt.Sprintf for the verbs the code base uses.
func (in *interp) sprintf(format *Str, args []Iface) (*Str, []Iface) {
	f := in.concStr(format)
	if !f.concrete() {
		unsupported("symbolic format string")
	}
	out := emptyStr
	var wrapped []Iface
	s := f.s
	ai := 0
	for len(s) > 0 {
		p := strings.IndexByte(s, '%')
		if p < 0 {
			out = in.concat(out, str(s))
			break
		}
		out = in.concat(out, str(s[:p]))
		s = s[p+1:]
		j := 0
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			out = in.concat(out, str("%!(NOVERB)"))
			break
		}
		flags, verb := s[:j], s[j]
		s = s[j+1:]
		if verb == '%' {
			out = in.concat(out, str("%"))
			continue
		}
		if ai >= len(args) {
			out = in.concat(out, str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		out = in.concat(out, in.fmtArg(flags, verb, a))
	}
	if ai < len(args) {
		out = in.concat(out, str("%!(EXTRA ...)"))
	}
	return out, wrapped
}

func (in *interp) hexBytes(e []Value, upper bool) *Str {
	c := in.c
	var out []Value
	al := uint64('a' - 10)
	if upper {
		al = 'A' - 10
	}
	nib := func(n *Term) Value {
		n = c.Zext(n, 8)
		return c.Ite(c.Ult(n, c.Const(8, 10)), c.Add(n, c.Const(8, '0')), c.Add(n, c.Const(8, al)))
	}
	for _, x := range e {
		t := in.asTerm(x)
		out = append(out, nib(c.Extract(t, 7, 4)), nib(c.Extract(t, 3, 0)))
	}
	return mkStr(out)
}

func (in *interp) textOf(s *Str) (string, bool) {
	if s.e == nil {
		return s.s, true
	}
	return "", false
}

func (in *interp) fmtArg(flags string, verb byte, a Iface) *Str {
	if a.T == nil {
		if verb == 'v' {
			return str("<nil>")
		}
		return str("%!" + string(verb) + "(<nil>)")
	}
	// methods
	if strings.IndexByte("vsxXq", verb) >= 0 && !strings.Contains(flags, "#") {
		for _, m := range []string{"Error", "String"} {
			fn := in.methodByName(a.T, m)
			if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 || !isString(fn.Signature.Results().At(0).Type()) {
				continue
			}
			if p, ok := a.V.(*Value); ok && p == nil {
				return str("<nil>")
			}
			s := in.callFn(fn, []Value{a.V}, nil).(*Str)
			return in.fmtString(flags, verb, s)
		}
	}
	switch x := a.V.(type) {
	case *Str:
		return in.fmtString(flags, verb, x)
	case *Term:
		if b, ok := a.T.Underlying().(*types.Basic); ok {
			return in.fmtNum(flags, verb, x, b)
		}
	case SliceV:
		if isByteSlice(a.T) && strings.IndexByte("sxXq", verb) >= 0 {
			return in.fmtString(flags, verb, in.strOf(x))
		}
	case ArrayV:
		if (verb == 'x' || verb == 'X') && allTerms(x) {
			return in.fmtString(flags, verb, in.strOf(SliceV(x)))
		}
	case *Value:
		// addresses differ from run to run
		in.st.opqLive = true
		in.ptrSeq++
		return &Str{e: []Value{&Opq{kind: "ptr", spec: fmt.Sprint(in.ptrSeq)}}}
	}
	in.st.opqLive = true
	in.ptrSeq++
	return &Str{e: []Value{&Opq{kind: "unk", spec: fmt.Sprintf("%s %d", a.T, in.ptrSeq)}}}
}

func (in *interp) fmtString(flags string, verb byte, s *Str) *Str {
	if t, ok := in.textOf(s); ok {
		return str(fmt.Sprintf("%"+flags+string(verb), t))
	}
	switch verb {
	case 's', 'v':
		if flags == "" {
			return s
		}
	case 'x', 'X':
		s = in.concStr(s)
		h := in.hexBytes(in.strElems(s), verb == 'X')
		switch strings.Replace(flags, "0", "", 1) {
		case "":
			if flags == "" {
				return h
			}
		case "#":
			if len(s.e) > 0 {
				return in.concat(str("0"+string(verb)), h)
			}
		}
		// width smaller than the text
		if f := strings.TrimLeft(flags, "#0"); f != "" {
			if n, err := strconv.Atoi(f); err == nil && n <= 2*len(s.e) {
				if strings.Contains(flags, "#") {
					return in.concat(str("0"+string(verb)), h)
				}
				return h
			}
		}
	}
	t := in.concreteString(s)
	return str(fmt.Sprintf("%"+flags+string(verb), t))
}

func (in *interp) fmtNum(flags string, verb byte, t *Term, b *types.Basic) *Str {
	w, signed := width(b)
	spec := "%" + flags + string(verb)
	if t.op == OpConst {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return str(fmt.Sprintf(spec, t.val == 1))
		case isFloat(b):
			if w == 32 {
				return str(fmt.Sprintf(spec, math.Float32frombits(uint32(t.val))))
			}
			return str(fmt.Sprintf(spec, math.Float64frombits(t.val)))
		case b.Kind() == types.Uint8:
			return str(fmt.Sprintf(spec, uint8(t.val)))
		case b.Kind() == types.Int32:
			return str(fmt.Sprintf(spec, int32(t.val)))
		case signed:
			return str(fmt.Sprintf(spec, t.SVal()))
		}
		return str(fmt.Sprintf(spec, t.val))
	}
	if b.Info()&types.IsBoolean != 0 {
		if in.branch(t) {
			return str(fmt.Sprintf(spec, true))
		}
		return str(fmt.Sprintf(spec, false))
	}
	if isFloat(b) {
		k := "f64"
		if w == 32 {
			k = "f32"
		}
		return &Str{e: []Value{in.opq(&Opq{kind: "fmt", spec: k + "|" + spec, args: []*Term{t}})}}
	}
	switch verb {
	case 'd', 'v':
		if flags == "" {
			return in.decStr(t, signed)
		}
	case 'c':
		if flags == "" {
			return in.runeStr(in.c.Zext(in.c.Trunc(t, min(32, t.w)), 32))
		}
	case 'x', 'X', 'o', 'b':
	default:
		unsupported("format %s of a symbolic number", spec)
	}
	if signed && t.bits[t.w-1] != 0 {
		return &Str{e: []Value{in.opq(&Opq{kind: "fmt", spec: "s|" + spec, args: []*Term{in.c.Sext(t, 64)}})}}
	}
	return &Str{e: []Value{in.opq(&Opq{kind: "fmt", spec: "u|" + spec, args: []*Term{in.c.Zext(t, 64)}})}}
}

func (in *interp) sprint(args []Iface, ln bool) *Str {
	out := emptyStr
	for i, a := range args {
		_, isS := a.V.(*Str)
		if i > 0 {
			_, prevS := args[i-1].V.(*Str)
			if ln || (!isS && !prevS) {
				out = in.concat(out, str(" "))
			}
		}
		out = in.concat(out, in.fmtArg("", 'v', a))
	}
	if ln {
		out = in.concat(out, str("\n"))
	}
	return out
}

func (in *interp) fprint(w Iface, s *Str) Value {
	if w.T == nil {
		in.gopanic(nilDeref)
	}
	f := in.methodByName(w.T, "Write")
	if f == nil {
		unsupported("writer %s", w.T)
	}
	return in.callFn(f, []Value{w.V, in.bytesOf(s)}, nil)
}

func init() {
	I := func(name string, f intrinsic) { intrinsics[name] = f }
	I("fmt.Sprintf", func(in *interp, cc *callCtx, a []Value) Value {
		s, _ := in.sprintf(a[0].(*Str), in.sliceArgs(a[1]))
		return s
	})
	I("fmt.Errorf", func(in *interp, cc *callCtx, a []Value) Value {
		s, w := in.sprintf(a[0].(*Str), in.sliceArgs(a[1]))
		if len(w) == 0 || w[0].T == nil {
			t := in.prog.Type("errors", "errorString")
			p := new(Value)
			*p = StructV{s}
			return Iface{T: types.NewPointer(t), V: p}
		}
		t := in.prog.Type("fmt", "wrapError")
		p := new(Value)
		*p = StructV{s, w[0]}
		if len(w) > 1 {
			t = in.prog.Type("fmt", "wrapErrors")
			es := SliceV{}
			for _, x := range w {
				es = append(es, x)
			}
			*p = StructV{s, es}
		}
		return Iface{T: in.ptrTo(t), V: p}
	})
	I("fmt.Sprint", func(in *interp, cc *callCtx, a []Value) Value { return in.sprint(in.sliceArgs(a[0]), false) })
	I("fmt.Sprintln", func(in *interp, cc *callCtx, a []Value) Value { return in.sprint(in.sliceArgs(a[0]), true) })
	I("fmt.Fprintf", func(in *interp, cc *callCtx, a []Value) Value {
		s, _ := in.sprintf(a[1].(*Str), in.sliceArgs(a[2]))
		return in.fprint(a[0].(Iface), s)
	})
	I("fmt.Fprint", func(in *interp, cc *callCtx, a []Value) Value {
		return in.fprint(a[0].(Iface), in.sprint(in.sliceArgs(a[1]), false))
	})
	I("fmt.Fprintln", func(in *interp, cc *callCtx, a []Value) Value {
		return in.fprint(a[0].(Iface), in.sprint(in.sliceArgs(a[1]), true))
	})
	out := func(in *interp, s *Str) Value {
		b := in.bytesOf(s)
		in.stdout = append(in.stdout, b...)
		return TupleV{in.c.Const(64, uint64(len(b))), Iface{}}
	}
	I("fmt.Printf", func(in *interp, cc *callCtx, a []Value) Value {
		s, _ := in.sprintf(a[0].(*Str), in.sliceArgs(a[1]))
		return out(in, s)
	})
	I("fmt.Println", func(in *interp, cc *callCtx, a []Value) Value { return out(in, in.sprint(in.sliceArgs(a[0]), true)) })
	I("fmt.Print", func(in *interp, cc *callCtx, a []Value) Value { return out(in, in.sprint(in.sliceArgs(a[0]), false)) })
	I("fmt.Appendf", func(in *interp, cc *callCtx, a []Value) Value {
		s, _ := in.sprintf(a[1].(*Str), in.sliceArgs(a[2]))
		return append(append(SliceV{}, a[0].(SliceV)...), in.strElems(s)...)
	})
}

func (in *interp) ptrTo(t types.Type) types.Type { return types.NewPointer(t) }
