package engine

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config fixes how explorations run.
type Config struct {
	Prog     *Program
	Workers  int
	Solver   []string
	QTimeout time.Duration
	Debug    bool
}

// Job is one harness to explore.
type Job struct {
	Harness string
	Fn      *ssa.Function
	Tier    int
	Budget  time.Duration
	Opt     Options
	Samples int
	Seed    int64
	// Confirm says whether a counterexample counts: when one does, the rest of
	// the exploration is cut to Grace.
	Confirm func(Candidate) bool
	Grace   time.Duration
}

// Heap sizes (bytes): above softHeap workers drop their term tables, above
// hardHeap the exploration ends as if its time were up.
const (
	softHeap = 7 << 30
	hardHeap = 14 << 30
)

func heapNow() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// control stops an exploration early.
type control struct {
	halt atomic.Bool // workers end their path
	soft atomic.Bool // memory is getting short
}

// Sample is a finished path with a valuation that takes it.
type Sample struct {
	Vals     map[string]uint64
	Choices  []int
	Observed []string
	Forced   string // why the path was not finished symbolically ("" when it was)
}

// Report is the outcome of an exploration.
type Report struct {
	Harness     string
	Paths       int
	Assumed     int
	Pending     int
	MaxDecs     int
	Steps       int
	Incomplete  map[string]int
	Unsupported map[string]int
	Candidates  []Candidate
	Samples     []Sample
	Stats       *Stats
	Queries     int
	NSat        int
	NUnsat      int
	NUnknown    int
	SolverTime  time.Duration
	SolverErrs  []string
	Wall        time.Duration
	seen        int
}

// Complete: every path within the bounds was decided.
func (r *Report) Complete() bool {
	return r.Pending == 0 && len(r.Incomplete) == 0 && len(r.Unsupported) == 0
}

type queue struct {
	mu     sync.Mutex
	cond   *sync.Cond
	items  []Item
	active int
	stop   bool
}

func (q *queue) push(i Item) {
	q.mu.Lock()
	q.items = append(q.items, i)
	q.cond.Signal()
	q.mu.Unlock()
}

func (q *queue) pop() (Item, bool) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for {
		if q.stop {
			return Item{}, false
		}
		if n := len(q.items); n > 0 {
			i := q.items[n-1]
			q.items = q.items[:n-1]
			q.active++
			return i, true
		}
		if q.active == 0 {
			q.stop = true
			q.cond.Broadcast()
			return Item{}, false
		}
		q.cond.Wait()
	}
}

func (q *queue) done() {
	q.mu.Lock()
	q.active--
	if q.active == 0 && len(q.items) == 0 {
		q.stop = true
		q.cond.Broadcast()
	}
	q.mu.Unlock()
}

func newInterp(prog *Program, c *Ctx, s *Solver, opt Options, st *Stats) *interp {
	return &interp{
		c: c, prog: prog, solver: s, opt: opt, st: st,
		infos:     map[*ssa.Function]*fnInfo{},
		globals:   map[*ssa.Global]*Value{},
		inited:    map[*ssa.Package]int{},
		freshMaps: map[*MapV]bool{},
		syncMaps:  map[*Value]*MapV{},
		jsonErrs:  map[*Value]string{},
		qcache:    map[string]cacheEnt{},
		tables:    map[int]*truthTable{},
		methods:   map[mkey]*ssa.Function{},
		implc:     map[implKey]bool{},
		ptrs:      map[types.Type]types.Type{},
		xinfos:    map[types.Type]*xinfo{},
		jinfos:    map[types.Type][]fieldRef{},
		onces:     map[*Value]bool{},
		initOnces: map[*Value]bool{},
	}
}

// Explore runs a harness over all its paths.
func Explore(cfg *Config, job Job) *Report {
	start := time.Now()
	rep := &Report{Harness: job.Harness, Incomplete: map[string]int{}, Unsupported: map[string]int{}, Stats: NewStats()}
	q := &queue{}
	q.cond = sync.NewCond(&q.mu)
	q.items = append(q.items, Item{Model: map[string]uint64{}})
	ctl := &control{}
	halt := func() {
		ctl.halt.Store(true)
		q.mu.Lock()
		q.stop = true
		q.cond.Broadcast()
		q.mu.Unlock()
	}
	timer := time.AfterFunc(job.Budget, halt)
	defer timer.Stop()
	over := make(chan struct{})
	defer close(over)
	var outOfMemory atomic.Bool
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-over:
				return
			case <-t.C:
			}
			h := heapNow()
			if h > hardHeap {
				debug.FreeOSMemory()
				if h = heapNow(); h > hardHeap {
					outOfMemory.Store(true)
					halt()
				}
			}
			ctl.soft.Store(h > softHeap)
		}
	}()
	rng := rand.New(rand.NewSource(job.Seed))
	var mu sync.Mutex
	candN := map[string]int{}
	var confirmMu sync.Mutex
	confirmed := false
	addCand := func(c Candidate) {
		mu.Lock()
		k := c.Kind + "|" + c.Msg
		candN[k]++
		keep := candN[k] <= 6
		if keep {
			c.Harness = job.Harness
			rep.Candidates = append(rep.Candidates, c)
		}
		mu.Unlock()
		if keep && job.Confirm != nil {
			confirmMu.Lock()
			if !confirmed && job.Confirm(c) {
				confirmed = true
				time.AfterFunc(job.Grace, halt)
			}
			confirmMu.Unlock()
		}
	}
	var wg sync.WaitGroup
	for w := 0; w < cfg.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol := NewSolver(cfg.QTimeout, cfg.Solver...)
			st := NewStats()
			in := newInterp(cfg.Prog, NewCtx(), sol, job.Opt, st)
			setup := func() {
				in.push = q.push
				in.report = addCand
				in.ctl = ctl
				in.tier = job.Tier
			}
			setup()
			for {
				it, ok := q.pop()
				if !ok {
					break
				}
				if n := in.c.Size(); n > 6<<20 || n > 1<<18 && ctl.soft.Load() {
					in = newInterp(cfg.Prog, NewCtx(), sol, job.Opt, st)
					setup()
				}
				res := in.runPath(job.Fn, it)
				mu.Lock()
				if res.deadline {
					rep.Pending++
				} else {
					rep.Paths++
				}
				rep.Steps += in.p.steps
				if n := len(in.p.trace); n > rep.MaxDecs {
					rep.MaxDecs = n
				}
				if res.assumed {
					rep.Assumed++
				}
				for _, x := range in.p.incomplete {
					rep.Incomplete[x]++
				}
				if res.unsupported != "" {
					rep.Unsupported[res.unsupported]++
				}
				if res.sample != nil {
					if res.sample.Forced != "" {
						if rep.Unsupported[res.unsupported] <= 200 {
							rep.Samples = append(rep.Samples, *res.sample)
						}
					} else {
						rep.seen++
						n := 0
						for i := range rep.Samples {
							if rep.Samples[i].Forced == "" {
								n++
							}
						}
						if n < job.Samples {
							rep.Samples = append(rep.Samples, *res.sample)
						} else if k := rng.Intn(rep.seen); k < job.Samples {
							for i := range rep.Samples {
								if rep.Samples[i].Forced == "" {
									if k == 0 {
										rep.Samples[i] = *res.sample
										break
									}
									k--
								}
							}
						}
					}
				}
				mu.Unlock()
				q.done()
			}
			mu.Lock()
			rep.Stats.merge(st)
			rep.Queries += sol.Queries
			rep.NSat += sol.NSat
			rep.NUnsat += sol.NUnsat
			rep.NUnknown += sol.NUnknown
			rep.SolverTime += sol.Time
			rep.SolverErrs = append(rep.SolverErrs, sol.Errors...)
			mu.Unlock()
			sol.Close()
		}()
	}
	wg.Wait()
	rep.Pending += len(q.items)
	if outOfMemory.Load() {
		rep.Incomplete["memory limit reached"]++
	}
	rep.Wall = time.Since(start)
	return rep
}

type pathResult struct {
	assumed     bool
	deadline    bool
	unsupported string
	sample      *Sample
}

func (in *interp) runPath(fn *ssa.Function, it Item) (res pathResult) {
	in.p = &path{item: it, lits: map[int]bool{}, model: Model{}, names: it.Model, varCount: map[string]int{}}
	if in.p.names == nil {
		in.p.names = map[string]uint64{}
	}
	in.journalOn = true
	in.fr, in.depth, in.spec, in.tol, in.fixing = nil, 0, 0, 0, false
	in.stdout, in.stderr, in.stdin = nil, nil, nil
	in.st.opqLive = false
	in.onces = map[*Value]bool{}
	in.frozen = nil
	clear(in.jsonErrs)
	in.shared, in.synced, in.pools, in.pathMaps = nil, 0, nil, nil
	defer in.rollback()
	finish := func(why string) {
		s := &Sample{Vals: in.childModel(nil), Choices: in.choices(), Forced: why}
		if why == "" {
			for _, o := range in.p.observes {
				s.Observed = append(s.Observed, in.observed(o))
			}
		}
		res.sample = s
	}
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
			return
		case pathEnd:
			switch x.why {
			case "assume":
				res.assumed = true
			case "deadline":
				res.deadline = true
			}
		case targetPanic:
			in.spec = 0
			in.candidate("panic", "uncaught panic: "+in.panicText(x.v), nil)
		case unsupportedErr:
			in.spec = 0
			res.unsupported = x.msg
			if where := in.where(); where != "" {
				res.unsupported += " in " + where
			}
			finish(res.unsupported)
		case engineErr:
			res.unsupported = "engine: " + x.msg
			finish(res.unsupported)
		default:
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine failure: %v\n%s\n", r, debug.Stack())
			}
			res.unsupported = fmt.Sprintf("engine failure: %v", r)
			if where := in.where(); where != "" {
				res.unsupported += " in " + where
			}
			finish(res.unsupported)
		}
	}()
	in.callFn(fn, nil, nil)
	finish("")
	return
}

func (in *interp) where() string {
	s := ""
	n := 0
	for f := in.fr; f != nil && n < 4; f = f.caller {
		if s != "" {
			s += " < "
		}
		s += f.info.name
		n++
	}
	return s
}

func (in *interp) panicText(v Value) string {
	if itf, ok := v.(Iface); ok {
		if s, ok := itf.V.(*Str); ok && s.concrete() {
			return s.s
		}
		if itf.T != nil {
			return itf.T.String()
		}
	}
	return "?"
}

// observed renders an observation under the path's valuation.
func (in *interp) observed(o obsRec) string {
	switch x := o.val.(type) {
	case *Term:
		return fmt.Sprintf("%s=%d", o.label, in.eval(x))
	case *Str:
		return fmt.Sprintf("%s=%q", o.label, in.evalStr(x))
	}
	return o.label + "=?"
}

// evalStr is the text of s under the path's valuation.
func (in *interp) evalStr(s *Str) string {
	if s.e == nil {
		return s.s
	}
	var b []byte
	for _, x := range s.e {
		switch y := x.(type) {
		case *Term:
			b = append(b, byte(in.eval(y)))
		case *Opq:
			if y.doc != nil {
				b = append(b, in.renderDoc(y, in.eval)...)
				continue
			}
			v := make([]uint64, len(y.args))
			for i, a := range y.args {
				v[i] = in.eval(a)
			}
			b = append(b, renderOpq(y, v)...)
		}
	}
	return string(b)
}
