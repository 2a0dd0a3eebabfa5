package engine

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

// Solver drives one SMT-LIB2 process over a pipe.
type Solver struct {
	cmd     []string
	p       *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Timeout time.Duration

	Queries  int
	NSat     int
	NUnsat   int
	NUnknown int
	Time     time.Duration
	Errors   []string

	inc   bool    // queries run inside push/pop rather than after a reset
	n     int     // queries of this process
	slow  *Solver // decides what the incremental process does not decide soon
	third *Solver // second opinion on what slow does not decide
}

func NewSolver(timeout time.Duration, cmd ...string) *Solver {
	fast := timeout
	if fast > 1500*time.Millisecond {
		fast = 1500 * time.Millisecond
	}
	s := &Solver{cmd: cmd, Timeout: fast, inc: true, slow: &Solver{cmd: cmd, Timeout: timeout}}
	if _, err := exec.LookPath("cvc5"); err == nil {
		s.third = &Solver{cmd: []string{"cvc5", "--incremental", "--produce-models", "--solve-bv-as-int=sum", "--tlimit-per=" + strconv.Itoa(int(timeout.Milliseconds()))}, Timeout: timeout}
	}
	return s
}

func (s *Solver) start() error {
	s.p = exec.Command(s.cmd[0], s.cmd[1:]...)
	var err error
	if s.in, err = s.p.StdinPipe(); err != nil {
		return err
	}
	o, err := s.p.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	return s.p.Start()
}

func (s *Solver) Close() {
	if s.p != nil {
		_ = s.in.Close()
		_ = s.p.Process.Kill()
		_ = s.p.Wait()
		s.p = nil
	}
	if s.slow != nil {
		s.slow.Close()
	}
	if s.third != nil {
		s.third.Close()
	}
}

func (s *Solver) kill() {
	if s.p != nil {
		_ = s.in.Close()
		_ = s.p.Process.Kill()
		_ = s.p.Wait()
		s.p = nil
	}
}

// Check decides the conjunction of the given width-1 terms. On Sat it returns
// values for every variable that occurs.
func (s *Solver) Check(c *Ctx, cs []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	p, body := s.print(c, cs)
	r, m := Unknown, Model(nil)
	if !p.fp {
		r, m = s.run(c, cs, p, body)
	}
	if r == Unknown {
		r, m = s.race(c, cs, p, body)
	}
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnknown++
	}
	return r, m
}

// race puts a query the incremental process did not decide to the other solvers
// at the same time.
func (s *Solver) race(c *Ctx, cs []*Term, p *smtPrinter, body string) (Result, Model) {
	type ans struct {
		i int
		r Result
		m Model
	}
	var os []*Solver
	for _, o := range []*Solver{s.slow, s.third} {
		if o == nil || o == s.third && p.fp {
			continue
		}
		o.Errors = nil
		if o.p == nil {
			if err := o.start(); err != nil {
				s.Errors = append(s.Errors, err.Error())
				o.p = nil
				continue
			}
		}
		os = append(os, o)
	}
	ch := make(chan ans, len(os))
	procs := make([]*exec.Cmd, len(os))
	for i, o := range os {
		procs[i] = o.p
		go func(i int, o *Solver) {
			r, m := o.run(c, cs, p, body)
			ch <- ans{i, r, m}
		}(i, o)
	}
	best := ans{-1, Unknown, nil}
	for n := range os {
		a := <-ch
		if best.r == Unknown && a.r != Unknown {
			best = a
			if n < len(os)-1 {
				for i := range os {
					if i != a.i {
						_ = procs[i].Process.Kill()
					}
				}
			}
		}
	}
	if best.r == Unknown {
		for _, o := range os {
			s.Errors = append(s.Errors, o.Errors...)
		}
	}
	return best.r, best.m
}

func (s *Solver) print(c *Ctx, cs []*Term) (*smtPrinter, string) {
	var body strings.Builder
	p := &smtPrinter{c: c, sb: &body, done: map[int]bool{}, vars: map[int]*Term{}}
	for _, t := range cs {
		p.define(t)
	}
	for _, t := range cs {
		fmt.Fprintf(&body, "(assert (= %s #b1))\n", p.ref(t))
	}
	return p, body.String()
}

// smtPrinter prints terms as SMT-LIB2 definitions.
type smtPrinter struct {
	c    *Ctx
	sb   *strings.Builder
	done map[int]bool
	vars map[int]*Term
	fp   bool
}

func (p *smtPrinter) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	return "t" + strconv.Itoa(t.id)
}

func (p *smtPrinter) bitRef(b Bit) string {
	n := &p.c.bitNodes[b]
	return fmt.Sprintf("((_ extract %d %d) %s)", n.idx, n.idx, p.ref(n.atom))
}

func (p *smtPrinter) deps(t *Term) []*Term {
	if t.op == OpBits {
		seen := map[int]bool{}
		var out []*Term
		add := func(a *Term) {
			if !seen[a.id] {
				seen[a.id] = true
				out = append(out, a)
			}
		}
		for _, b := range t.bits {
			if b <= 1 {
				continue
			}
			n := &p.c.bitNodes[b]
			if n.atom != nil {
				add(n.atom)
				continue
			}
			for _, x := range n.xor {
				add(p.c.bitNodes[x].atom)
			}
		}
		return out
	}
	return t.args
}

func (p *smtPrinter) define(root *Term) {
	type fr struct {
		t *Term
		d []*Term
		i int
	}
	if root.op == OpConst || p.done[root.id] {
		return
	}
	st := []fr{{root, p.deps(root), 0}}
	p.done[root.id] = true
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.d) {
			d := f.d[f.i]
			f.i++
			if d.op != OpConst && !p.done[d.id] {
				p.done[d.id] = true
				st = append(st, fr{d, p.deps(d), 0})
			}
			continue
		}
		p.emit(f.t)
		st = st[:len(st)-1]
	}
}

func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (p *smtPrinter) fpOf(t *Term) string {
	return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(t.w), p.ref(t))
}

func (p *smtPrinter) emit(t *Term) {
	sb := p.sb
	if t.op == OpVar {
		p.vars[t.id] = t
		fmt.Fprintf(sb, "(declare-const t%d (_ BitVec %d))\n", t.id, t.w)
		return
	}
	fmt.Fprintf(sb, "(define-fun t%d () (_ BitVec %d) ", t.id, t.w)
	switch t.op {
	case OpBits:
		// runs, most significant first
		var parts []string
		i := t.w - 1
		for i >= 0 {
			b := t.bits[i]
			if b <= 1 {
				j := i
				var sbb strings.Builder
				for j >= 0 && t.bits[j] <= 1 {
					sbb.WriteByte('0' + byte(t.bits[j]))
					j--
				}
				parts = append(parts, "#b"+sbb.String())
				i = j
				continue
			}
			n := &p.c.bitNodes[b]
			if n.atom != nil {
				j := i
				k := n.idx
				for j-1 >= 0 && t.bits[j-1] > 1 {
					m := &p.c.bitNodes[t.bits[j-1]]
					if m.atom != n.atom || m.idx != k-1 {
						break
					}
					j--
					k--
				}
				if k == 0 && n.idx == n.atom.w-1 {
					parts = append(parts, p.ref(n.atom))
				} else {
					parts = append(parts, fmt.Sprintf("((_ extract %d %d) %s)", n.idx, k, p.ref(n.atom)))
				}
				i = j - 1
				continue
			}
			var x strings.Builder
			if n.neg {
				x.WriteString("(bvnot ")
			}
			if len(n.xor) > 1 {
				x.WriteString(strings.Repeat("(bvxor ", len(n.xor)-1))
				x.WriteString(p.bitRef(n.xor[0]))
				for _, y := range n.xor[1:] {
					x.WriteByte(' ')
					x.WriteString(p.bitRef(y))
					x.WriteByte(')')
				}
			} else {
				x.WriteString(p.bitRef(n.xor[0]))
			}
			if n.neg {
				x.WriteByte(')')
			}
			parts = append(parts, x.String())
			i--
		}
		if len(parts) == 1 {
			sb.WriteString(parts[0])
		} else {
			sb.WriteString("(concat")
			for _, q := range parts {
				sb.WriteByte(' ')
				sb.WriteString(q)
			}
			sb.WriteByte(')')
		}
	case OpIte:
		fmt.Fprintf(sb, "(ite (= %s #b1) %s %s)", p.ref(t.args[0]), p.ref(t.args[1]), p.ref(t.args[2]))
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		fmt.Fprintf(sb, "(ite (%s %s %s) #b1 #b0)", opNames[t.op], p.ref(t.args[0]), p.ref(t.args[1]))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		p.fp = true
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		fmt.Fprintf(sb, "(fp.to_ieee_bv (%s RNE %s %s))", n, p.fpOf(t.args[0]), p.fpOf(t.args[1]))
	case OpFLt, OpFLe, OpFEq:
		p.fp = true
		n := map[Op]string{OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq"}[t.op]
		fmt.Fprintf(sb, "(ite (%s %s %s) #b1 #b0)", n, p.fpOf(t.args[0]), p.fpOf(t.args[1]))
	case OpFFromS:
		p.fp = true
		fmt.Fprintf(sb, "(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), p.ref(t.args[0]))
	case OpFFromU:
		p.fp = true
		fmt.Fprintf(sb, "(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), p.ref(t.args[0]))
	case OpFToS:
		p.fp = true
		fmt.Fprintf(sb, "((_ fp.to_sbv %d) RTZ %s)", t.w, p.fpOf(t.args[0]))
	case OpFToU:
		p.fp = true
		fmt.Fprintf(sb, "((_ fp.to_ubv %d) RTZ %s)", t.w, p.fpOf(t.args[0]))
	case OpFCvt:
		p.fp = true
		fmt.Fprintf(sb, "(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), p.fpOf(t.args[0]))
	case OpFCeil, OpFFloor, OpFTrunc, OpFRound:
		p.fp = true
		m := map[Op]string{OpFCeil: "RTP", OpFFloor: "RTN", OpFTrunc: "RTZ", OpFRound: "RNA"}[t.op]
		fmt.Fprintf(sb, "(fp.to_ieee_bv (fp.roundToIntegral %s %s))", m, p.fpOf(t.args[0]))
	default:
		fmt.Fprintf(sb, "(%s", opNames[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.ref(a))
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}

var errTimeout = errors.New("solver timeout")

// run puts one query to this process.
func (s *Solver) run(c *Ctx, cs []*Term, p *smtPrinter, body string) (res Result, model Model) {
	if s.inc && s.n > 4000 {
		s.kill()
	}
	var q strings.Builder
	if s.p == nil {
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			return Unknown, nil
		}
		s.n = 0
		if s.inc {
			fmt.Fprintf(&q, "(set-logic QF_BV)\n(set-option :timeout %d)\n", s.Timeout.Milliseconds())
		}
	}
	s.n++
	if s.inc {
		q.WriteString("(push)\n")
	} else {
		q.WriteString("(reset)\n")
		if !p.fp {
			q.WriteString("(set-logic QF_BV)\n")
		}
		if !strings.Contains(s.cmd[0], "cvc5") {
			fmt.Fprintf(&q, "(set-option :timeout %d)\n", s.Timeout.Milliseconds())
		}
	}
	q.WriteString(body)
	q.WriteString("(check-sat)\n")
	defer func() {
		if s.inc && s.p != nil {
			if _, err := io.WriteString(s.in, "(pop)\n"); err != nil {
				s.kill()
			}
		}
	}()
	ids := make([]int, 0, len(p.vars))
	for id := range p.vars {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	q.WriteString("(echo \"mid\")\n")
	verdict, lines, err := s.talk(q.String(), "mid")
	if err != nil {
		s.Errors = append(s.Errors, err.Error())
		s.kill()
		return Unknown, nil
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			s.Errors = append(s.Errors, l)
			return Unknown, nil
		}
	}
	switch verdict {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return Unknown, nil
	}
	m := Model{}
	if len(ids) > 0 {
		q.Reset()
		q.WriteString("(get-value (")
		for _, id := range ids {
			fmt.Fprintf(&q, "t%d ", id)
		}
		q.WriteString("))\n(echo \"end\")\n")
		_, lines, err = s.talk(q.String(), "end")
		if err != nil {
			s.Errors = append(s.Errors, err.Error())
			s.kill()
			return Unknown, nil
		}
		txt := strings.Join(lines, " ")
		if strings.Contains(txt, "(error") {
			s.Errors = append(s.Errors, txt)
			return Unknown, nil
		}
		txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
		f := strings.Fields(txt)
		for i := 0; i+1 < len(f); i += 2 {
			id, _ := strconv.Atoi(strings.TrimPrefix(f[i], "t"))
			var v uint64
			switch {
			case strings.HasPrefix(f[i+1], "#x"):
				v, _ = strconv.ParseUint(f[i+1][2:], 16, 64)
			case strings.HasPrefix(f[i+1], "#b"):
				v, _ = strconv.ParseUint(f[i+1][2:], 2, 64)
			}
			m[id] = v
		}
	}
	// the model must satisfy the constraints under our own evaluator
	ev := c.NewEval(m)
	for _, t := range cs {
		if ev.Eval(t) != 1 {
			s.Errors = append(s.Errors, "model does not satisfy constraint "+t.String())
			return Unknown, nil
		}
	}
	return Sat, m
}

func (s *Solver) talk(q, end string) (string, []string, error) {
	type rsp struct {
		lines []string
		err   error
	}
	ch := make(chan rsp, 1)
	out := s.out
	go func() {
		var lines []string
		for {
			l, err := out.ReadString('\n')
			l = strings.TrimSpace(l)
			if err != nil {
				ch <- rsp{lines, err}
				return
			}
			if l == end || l == "\""+end+"\"" {
				ch <- rsp{lines, nil}
				return
			}
			if l != "" {
				lines = append(lines, l)
			}
		}
	}()
	if _, err := io.WriteString(s.in, q); err != nil {
		s.kill()
		return "", nil, err
	}
	select {
	case r := <-ch:
		if r.err != nil {
			return "", nil, fmt.Errorf("solver ended: %v %v", r.err, r.lines)
		}
		first := ""
		if len(r.lines) > 0 {
			first = r.lines[0]
		}
		return first, r.lines, nil
	case <-time.After(s.Timeout*2 + 5*time.Second):
		_ = s.p.Process.Kill()
		return "", nil, errTimeout
	}
}
