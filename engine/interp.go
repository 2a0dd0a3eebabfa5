package engine

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	kSlot opKind = iota
	kConst
	kGlobal
	kFunc
	kBuiltin
	kNone
)

type opnd struct {
	k    opKind
	slot int
	v    Value
	g    *ssa.Global
}

type instr struct {
	i   ssa.Instruction
	ops []opnd
	dst int
	ifc *ifInfo
}

type block struct {
	ins   []instr
	nphi  int
	succs []int
	preds []int
}

type fnInfo struct {
	fn       *ssa.Function
	blocks   []block
	nslots   int
	slot     map[ssa.Value]int
	hasDefer bool
	intr     intrinsic
	name     string
	ran      bool
}

type ifInfo struct {
	done  bool
	paths []ifPath
	join  int
}

type ifPath struct {
	blocks []int // region blocks in order (may be empty), join excluded
}

type frame struct {
	info      *fnInfo
	regs      []Value
	caller    *frame
	defers    []deferred
	panicking bool
	panicVal  Value
	result    Value
	blk, prev int
}

type deferred struct {
	fn   *FuncV
	args []Value
	inv  Value
}

type targetPanic struct{ v Value }

type callCtx struct {
	fr   *frame
	call *ssa.CallCommon
	fn   *ssa.Function
}

type intrinsic func(in *interp, cc *callCtx, args []Value) Value

// Options bound an exploration.
type Options struct {
	MaxSteps  int
	MaxValues int
	EnumBits  int
	MaxDepth  int
}

type interp struct {
	c       *Ctx
	prog    *Program
	solver  *Solver
	opt     Options
	infos   map[*ssa.Function]*fnInfo
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int
	tol     int // tolerant depth (package init)
	fr      *frame
	depth   int

	journal   []jent
	journalOn bool
	frozen    map[*Value]bool // memory of strings made by unsafe.String on this path
	mapUndo   []mapUndo
	freshMaps map[*MapV]bool
	shared    *sharedMem // memory others may use at the moment
	synced    int        // locks held
	pools     map[*Value][]Value
	jsonErrs  map[*Value]string
	syncMaps  map[*Value]*MapV // made before the path
	pathMaps  map[*Value]*MapV

	p      *path
	qcache map[string]cacheEnt
	tables map[int]*truthTable
	st     *Stats
	push   func(Item)
	report func(Candidate)
	fixing bool
	spec   int // >0: speculative evaluation, no forking allowed

	methods   map[mkey]*ssa.Function
	implc     map[implKey]bool
	onces     map[*Value]bool
	initOnces map[*Value]bool
	stdout    []Value
	stderr    []Value
	stdin     []Value
	ptrSeq    int
	tier      int
	ptrs      map[types.Type]types.Type
	xinfos    map[types.Type]*xinfo
	jinfos    map[types.Type][]fieldRef

	ctl  *control
	poll int
}

type abortSpec struct{}

// declined is returned by an intrinsic that leaves the call to the real body.
type declined struct{}

func (in *interp) gopanic(msg string) {
	if in.spec > 0 {
		panic(abortSpec{})
	}
	panic(targetPanic{Iface{T: types.Typ[types.String], V: str(msg)}})
}

func (in *interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.infos[fn]; ok {
		return fi
	}
	fi := in.compile(fn)
	in.infos[fn] = fi
	return fi
}

func (in *interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		return &Poison{"type parameter constant"}
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return &Poison{"constant of " + t.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return in.c.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w, _ := width(b)
		if w == 0 {
			return &Poison{"constant width " + b.String()}
		}
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return in.c.Const(w, u)
		}
		i, _ := constant.Int64Val(v)
		return in.c.Const(w, uint64(i))
	case b.Info()&types.IsFloat != 0:
		w, _ := width(b)
		f, _ := constant.Float64Val(c.Value)
		return in.c.Const(w, fput(f, w))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return str(constant.StringVal(c.Value))
		}
		return str(string(rune(c.Int64())))
	}
	return &Poison{"constant of " + t.String()}
}

func (in *interp) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, slot: map[ssa.Value]int{}, name: fn.String()}
	if o := fn.Origin(); o != nil {
		fi.name = o.String()
	}
	fi.intr = findIntrinsic(fi.name, fn)
	if fn.Blocks == nil {
		return fi
	}
	num := func(v ssa.Value) {
		fi.slot[v] = fi.nslots
		fi.nslots++
	}
	for _, p := range fn.Params {
		num(p)
	}
	for _, p := range fn.FreeVars {
		num(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				num(v)
			}
		}
	}
	fi.blocks = make([]block, len(fn.Blocks))
	var rands []*ssa.Value
	for bi, b := range fn.Blocks {
		blk := &fi.blocks[bi]
		for _, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
		}
		for _, s := range b.Preds {
			blk.preds = append(blk.preds, s.Index)
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := instr{i: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = fi.slot[v]
			}
			if _, ok := i.(*ssa.Phi); ok {
				blk.nphi++
			}
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDefer = true
			case *ssa.If:
				ci.ifc = &ifInfo{}
			}
			rands = i.Operands(rands[:0])
			for _, r := range rands {
				ci.ops = append(ci.ops, in.operand(fi, *r))
			}
			blk.ins = append(blk.ins, ci)
		}
	}
	if fn.Recover != nil {
		fi.hasDefer = true
	}
	return fi
}

func (in *interp) operand(fi *fnInfo, v ssa.Value) opnd {
	switch x := v.(type) {
	case nil:
		return opnd{k: kNone}
	case *ssa.Const:
		return opnd{k: kConst, v: in.constVal(x)}
	case *ssa.Global:
		return opnd{k: kGlobal, g: x}
	case *ssa.Function:
		return opnd{k: kFunc, v: &FuncV{fn: x}}
	case *ssa.Builtin:
		return opnd{k: kBuiltin, v: &FuncV{bi: x}}
	}
	return opnd{k: kSlot, slot: fi.slot[v]}
}

func (in *interp) get(fr *frame, o *opnd) Value {
	switch o.k {
	case kSlot:
		return fr.regs[o.slot]
	case kGlobal:
		return in.global(o.g)
	case kNone:
		return nil
	}
	return o.v
}

func (in *interp) global(g *ssa.Global) *Value {
	if g.Pkg != nil && in.inited[g.Pkg] == 0 {
		in.initPackage(g.Pkg)
	}
	p, ok := in.globals[g]
	if !ok {
		p = new(Value)
		*p = in.zero(g.Type().Underlying().(*types.Pointer).Elem())
		in.globals[g] = p
	}
	return p
}

// initPackage runs a package initialiser, once, outside any path.
func (in *interp) initPackage(pkg *ssa.Package) {
	in.inited[pkg] = 1
	if pkg.Pkg.Path() == "os" {
		for i, n := range []string{"Stdin", "Stdout", "Stderr"} {
			f := new(Value)
			*f = StructV{in.c.Const(64, uint64(i))}
			*in.global(pkg.Var(n)) = f
		}
		*in.global(pkg.Var("Args")) = SliceV{str("scte35")}
	}
	if noInit(pkg.Pkg.Path()) {
		return
	}
	f := pkg.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	sj, sf, sp, ss, sd := in.journalOn, in.fr, in.p, in.spec, in.depth
	in.journalOn = false
	in.fr, in.depth = nil, 0
	in.spec = 0
	in.p = &path{lits: map[int]bool{}, model: Model{}, varCount: map[string]int{}}
	in.tol++
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupportedErr:
					in.st.note("init of " + pkg.Pkg.Path() + " stopped: " + x.msg)
				case targetPanic:
					in.st.note("init of " + pkg.Pkg.Path() + " panicked")
				default:
					panic(r)
				}
			}
		}()
		in.callFn(f, nil, nil)
	}()
	in.tol--
	in.journalOn, in.fr, in.p, in.spec, in.depth = sj, sf, sp, ss, sd
}

func noInit(path string) bool {
	switch path {
	case "runtime", "syscall", "reflect", "os", "internal/poll", "net", "internal/godebug", "unsafe", "time", "encoding/json", "encoding/xml", "log", "crypto/rand":
		return path != "time"
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime")
}

// callFn runs an SSA function.
func (in *interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	return in.callInfo(in.info(fn), args, env, nil)
}

func (in *interp) callInfo(fi *fnInfo, args, env []Value, cc *ssa.CallCommon) Value {
	if fi.intr != nil {
		v := fi.intr(in, &callCtx{fr: in.fr, call: cc, fn: fi.fn}, args)
		if _, no := v.(declined); !no {
			return v
		}
	}
	fn := fi.fn
	if fn.Blocks == nil {
		unsupported("no source for %s", fi.name)
	}
	if in.tol > 0 && fn.Synthetic == "package initializer" && in.fr != nil {
		return nil // other packages initialise on demand
	}
	if in.spec > 0 {
		panic(abortSpec{})
	}
	if in.depth > in.opt.MaxDepth {
		if in.tol > 0 {
			unsupported("call depth")
		}
		in.candidate("hang", "recursion deeper than the bound", nil)
		panic(pathEnd{"depth"})
	}
	if !fi.ran {
		fi.ran = true
		in.st.fn(fi.name)
	}
	fr := &frame{info: fi, caller: in.fr, regs: make([]Value, fi.nslots)}
	k := 0
	for i := range fn.Params {
		fr.regs[k] = args[i]
		k++
	}
	for i := range fn.FreeVars {
		fr.regs[k] = env[i]
		k++
	}
	in.depth++
	save := in.fr
	in.fr = fr
	if fi.hasDefer {
		in.runDeferFrame(fr)
	} else {
		in.run(fr)
	}
	in.fr = save
	in.depth--
	return fr.result
}

func (in *interp) runDeferFrame(fr *frame) {
	depth := in.depth
	var repanic interface{}
	func() {
		done := false
		defer func() {
			if done {
				return
			}
			r := recover()
			tp, ok := r.(targetPanic)
			if !ok {
				repanic = r
				return
			}
			in.fr = fr
			in.depth = depth
			fr.panicking = true
			fr.panicVal = tp.v
			func() {
				defer func() {
					if r := recover(); r != nil {
						repanic = r
					}
				}()
				in.runDefers(fr)
				if fr.panicking {
					repanic = targetPanic{fr.panicVal}
					return
				}
				if fr.info.fn.Recover != nil {
					fr.blk = fr.info.fn.Recover.Index
					in.run(fr)
				} else {
					fr.result = in.zero(fr.info.fn.Signature.Results())
				}
			}()
		}()
		in.run(fr)
		done = true
	}()
	if repanic != nil {
		panic(repanic)
	}
}

func (in *interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					in.fr = fr
					fr.panicking = true
					fr.panicVal = tp.v
				}
			}()
			in.callFunc(d.fn, d.args, nil)
		}()
	}
}

func (in *interp) callFunc(f *FuncV, args []Value, cc *ssa.CallCommon) Value {
	if f == nil {
		in.gopanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	if f.native != nil {
		return f.native(in, args)
	}
	if f.bi != nil {
		return in.builtin(f.bi, args, cc)
	}
	return in.callInfo(in.info(f.fn), args, f.env, cc)
}

// run executes fr from fr.blk until it returns.
func (in *interp) run(fr *frame) {
	for {
		if in.step(fr) {
			return
		}
	}
}

// step executes one basic block; true when the function returned.
func (in *interp) step(fr *frame) bool {
	blk := &fr.info.blocks[fr.blk]
	p := in.p
	p.steps += len(blk.ins)
	if in.poll++; in.poll&0xfff == 0 && in.tol == 0 && in.ctl != nil && in.ctl.halt.Load() {
		panic(pathEnd{"deadline"})
	}
	if p.steps > in.opt.MaxSteps {
		if in.tol > 0 {
			unsupported("step limit in package init")
		}
		in.candidate("hang", "more steps than the bound", nil)
		panic(pathEnd{"steps"})
	}
	if blk.nphi > 0 && fr.prev >= 0 { // prev < 0: merged by mergeIf
		in.phis(fr, blk)
	}
	for k := blk.nphi; k < len(blk.ins); k++ {
		ci := &blk.ins[k]
		switch i := ci.i.(type) {
		case *ssa.Jump:
			fr.prev, fr.blk = fr.blk, blk.succs[0]
			return false
		case *ssa.If:
			cv := in.get(fr, &ci.ops[0])
			cond, ok := cv.(*Term)
			if !ok {
				unsupported("branch on %v", cv)
			}
			if cond.op != OpConst {
				if _, known := p.lits[cond.id]; !known {
					if in.mergeIf(fr, fr.blk, ci, cond) {
						return false
					}
				}
			}
			s := 1
			if in.branch(cond) {
				s = 0
			}
			fr.prev, fr.blk = fr.blk, blk.succs[s]
			return false
		case *ssa.Return:
			switch len(ci.ops) {
			case 0:
			case 1:
				fr.result = in.get(fr, &ci.ops[0])
			default:
				t := make(TupleV, len(ci.ops))
				for j := range ci.ops {
					t[j] = in.get(fr, &ci.ops[j])
				}
				fr.result = t
			}
			return true
		case *ssa.RunDefers:
			in.runDefers(fr)
			if fr.panicking {
				panic(targetPanic{fr.panicVal})
			}
		case *ssa.Panic:
			v := in.get(fr, &ci.ops[0])
			panic(targetPanic{v})
		default:
			if in.tol > 0 {
				in.execTol(fr, ci)
			} else {
				in.exec(fr, ci)
			}
			_ = i
		}
	}
	unsupported("block without terminator in %s", fr.info.name)
	return true
}

func (in *interp) execTol(fr *frame, ci *instr) {
	depth := in.depth
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				in.fr, in.depth = fr, depth
				if ci.dst >= 0 {
					fr.regs[ci.dst] = &Poison{x.msg}
				}
			case targetPanic:
				in.fr, in.depth = fr, depth
				if ci.dst >= 0 {
					fr.regs[ci.dst] = &Poison{"panic in init"}
				}
			default:
				panic(r)
			}
		}
	}()
	in.exec(fr, ci)
}

func (in *interp) phis(fr *frame, blk *block) {
	pi := -1
	for j, pr := range blk.preds {
		if pr == fr.prev {
			pi = j
			break
		}
	}
	if blk.nphi == 1 {
		ci := &blk.ins[0]
		fr.regs[ci.dst] = in.get(fr, &ci.ops[pi])
		return
	}
	tmp := make([]Value, blk.nphi)
	for k := 0; k < blk.nphi; k++ {
		tmp[k] = in.get(fr, &blk.ins[k].ops[pi])
	}
	for k := 0; k < blk.nphi; k++ {
		fr.regs[blk.ins[k].dst] = tmp[k]
	}
}

// ---- if-conversion ----

func pureInstr(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.QUO, token.REM:
			_, ok := x.Y.(*ssa.Const)
			return ok && isInteger(x.X.Type())
		case token.EQL, token.NEQ:
			_, ok := x.X.Type().Underlying().(*types.Interface)
			return !ok
		}
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Convert:
		return isInteger(x.Type()) && isInteger(x.X.Type())
	case *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.IndexAddr, *ssa.Index:
		return true
	}
	return false
}

func (fi *fnInfo) pureBlock(b int) bool {
	for k := range fi.blocks[b].ins {
		if !pureInstr(fi.blocks[b].ins[k].i) {
			return false
		}
	}
	return len(fi.blocks[b].ins) <= 24
}

// analyse finds the join of an If whose arms are pure.
func (fi *fnInfo) analyse(b int, info *ifInfo) {
	info.done = true
	info.join = -1
	var all [][]int
	var rec func(cur []int, blk int) bool
	rec = func(cur []int, blk int) bool {
		if len(all) > 16 {
			return false
		}
		for _, x := range cur {
			if x == blk {
				all = append(all, append(append([]int(nil), cur...), blk))
				return true
			}
		}
		nc := append(append([]int(nil), cur...), blk)
		if blk == b || len(nc) > 7 || !fi.pureBlock(blk) || len(fi.blocks[blk].succs) == 0 {
			all = append(all, nc)
			return true
		}
		for _, s := range fi.blocks[blk].succs {
			if !rec(nc, s) {
				return false
			}
		}
		return true
	}
	for _, s := range fi.blocks[b].succs {
		if !rec(nil, s) {
			return
		}
	}
	for _, j := range all[0] {
		ok := true
		for _, p := range all {
			pos := -1
			for k, x := range p {
				if x == j {
					pos = k
					break
				}
			}
			if pos < 0 {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if j == b {
			return
		}
		seen := map[string]bool{}
		for _, p := range all {
			var q []int
			for _, x := range p {
				if x == j {
					break
				}
				q = append(q, x)
			}
			ks := fmt.Sprint(q)
			if !seen[ks] {
				seen[ks] = true
				info.paths = append(info.paths, ifPath{q})
			}
		}
		if len(info.paths) < 2 || len(info.paths) > 8 {
			info.paths = nil
			return
		}
		info.join = j
		return
	}
}

// mergeIf evaluates both arms of a pure diamond and continues at the join.
func (in *interp) mergeIf(fr *frame, b int, ci *instr, cond *Term) (ok bool) {
	info := ci.ifc
	fi := fr.info
	if !info.done {
		fi.analyse(b, info)
	}
	if info.join < 0 || in.tol > 0 {
		return false
	}
	jb := &fi.blocks[info.join]
	if jb.nphi == 0 {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			in.spec = 0
			switch r.(type) {
			case abortSpec, unsupportedErr:
				in.fr = fr
				ok = false
				return
			}
			panic(r)
		}
	}()
	in.spec++
	type arm struct {
		g    *Term
		vals []Value
	}
	var arms []arm
	for _, pth := range info.paths {
		g := in.c.True()
		prev, curCond := b, cond
		seq := append(append([]int(nil), pth.blocks...), info.join)
		dead := false
		for _, nb := range seq {
			// edge prev -> nb
			pb := &fi.blocks[prev]
			if len(pb.succs) == 2 {
				if pb.succs[0] == pb.succs[1] {
					panic(abortSpec{})
				}
				if pb.succs[0] == nb {
					g = in.c.And(g, curCond)
				} else {
					g = in.c.And(g, in.c.Not(curCond))
				}
				if g.IsFalse() {
					dead = true
					break
				}
			}
			if nb == info.join {
				break
			}
			blk := &fi.blocks[nb]
			if blk.nphi > 0 {
				fr.prev = prev
				in.phis(fr, blk)
			}
			for k := blk.nphi; k < len(blk.ins); k++ {
				x := &blk.ins[k]
				switch x.i.(type) {
				case *ssa.Jump:
				case *ssa.If:
					t, ok := in.get(fr, &x.ops[0]).(*Term)
					if !ok {
						panic(abortSpec{})
					}
					curCond = t
				default:
					in.exec(fr, x)
				}
			}
			prev = nb
		}
		if dead {
			continue
		}
		pi := -1
		for j, pr := range jb.preds {
			if pr == prev {
				pi = j
			}
		}
		a := arm{g: g}
		for k := 0; k < jb.nphi; k++ {
			a.vals = append(a.vals, in.get(fr, &jb.ins[k].ops[pi]))
		}
		arms = append(arms, a)
	}
	in.spec--
	if len(arms) == 0 {
		return false
	}
	out := make([]Value, jb.nphi)
	for k := range out {
		v := arms[len(arms)-1].vals[k]
		for i := len(arms) - 2; i >= 0; i-- {
			m, ok := in.mergeVal(arms[i].g, arms[i].vals[k], v)
			if !ok {
				return false
			}
			v = m
		}
		out[k] = v
	}
	// enter the join block past its phis
	for k := range out {
		fr.regs[jb.ins[k].dst] = out[k]
	}
	in.st.Merges++
	fr.prev, fr.blk = -1, info.join
	return true
}

func (in *interp) mergeVal(g *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		return in.c.Ite(g, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y || (x.concrete() && y.concrete() && x.s == y.s) {
			return x, true
		}
		return nil, false
	case *Value:
		y, ok := b.(*Value)
		return x, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.T == nil) != (y.T == nil) {
			return nil, false
		}
		if x.T == nil {
			return x, true
		}
		return nil, false
	case *MapV:
		y, ok := b.(*MapV)
		return x, ok && x == y
	}
	return nil, false
}
