// Command symgo decides properties of the code under test by symbolic
// execution of its SSA form; counterexamples are replayed natively.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine"
	"verif/nd"
)

var (
	root    = flag.String("root", "/verif", "directory of the machinery")
	bin     = flag.String("runner", "", "native runner")
	race    = flag.Bool("race", false, "the runner was built with -race")
	workers = flag.Int("workers", 8, "parallel workers")
	budgetF = flag.Int("budget", 0, "seconds per harness (0: as registered)")
	verbose = flag.Bool("v", false, "print details")
)

func main() {
	flag.Parse()
	a := flag.Args()
	switch {
	case len(a) == 3 && a[0] == "check":
		os.Exit(check(a[1], a[2]))
	case len(a) == 2 && a[0] == "replay":
		os.Exit(replay(a[1]))
	case len(a) >= 2 && a[0] == "dev":
		tier := "quick"
		if len(a) > 2 {
			tier = a[2]
		}
		*verbose = true
		dev(a[1], tier)
	case len(a) >= 1 && a[0] == "races":
		if !races(a[1:]) {
			os.Exit(1)
		}
	case len(a) == 1 && a[0] == "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	default:
		fmt.Fprintln(os.Stderr, "usage: symgo [-runner BIN] check ID quick|thorough | replay FILE | dev HARNESS [TIER] | list")
		os.Exit(2)
	}
}

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

func load() *engine.Config {
	prog, err := engine.Load(*root, os.Environ(), "verif/harness/core")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &engine.Config{Prog: prog, Workers: *workers, Solver: []string{"z3-new", "memory_max_size=2500", "-in"}, QTimeout: 20 * time.Second}
}

func options() engine.Options {
	return engine.Options{MaxSteps: 5_000_000, MaxValues: 300, EnumBits: 6, MaxDepth: 400}
}

// violation is a counterexample which the real code reproduces.
type violation struct {
	Property string   `json:"property"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Native   string   `json:"native_result"`
	Input    nd.Input `json:"input"`
	Replay   string   `json:"replay_cmd"`
	Source   string   `json:"source"`
}

// hrun is the outcome of one harness.
type hrun struct {
	r            *engine.Report
	viol         []violation
	unreproduced []string
	validated    int
	mismatched   []string
	forcedRuns   int
	missing      []string
}

func runHarness(cfg *engine.Config, rp *engine.Replayer, prop string, h H, tier int, left time.Duration, isKnown func(msg string) bool) *hrun {
	budget := h.budget(tier)
	if *budgetF > 0 {
		budget = time.Duration(*budgetF) * time.Second
	}
	if left < budget {
		budget = left
	}
	opt := options()
	if h.MaxValues > 0 {
		opt.MaxValues = h.MaxValues
	}
	if h.EnumBits > 0 {
		opt.EnumBits = h.EnumBits
	}
	out := &hrun{}
	// Stop soon after a counterexample which the real code reproduces.
	confirm := func(c engine.Candidate) bool {
		o := rp.Run(nd.Input{Harness: h.Name, Tier: tier, Vals: c.Vals, Choices: c.Choices})
		switch o.Status {
		case "assert":
			return !isKnown(o.Msg)
		case "panic", "hang", "crash":
			return !isKnown(o.Status + ": " + o.Msg)
		}
		return false
	}
	out.r = engine.Explore(cfg, engine.Job{Harness: h.Name, Fn: cfg.Prog.Func("verif/harness/core", h.Name), Tier: tier,
		Budget: budget, Opt: opt, Samples: 100, Seed: seed(), Confirm: confirm, Grace: 20 * time.Second})
	r := out.r
	seen := map[string]bool{}
	native := func(kind, msg, source string, vals map[string]uint64, choices []int) nd.Output {
		in := nd.Input{Harness: h.Name, Tier: tier, Vals: vals, Choices: choices}
		o := rp.Run(in)
		if o.Status == "hang" {
			o = rp.Run(in)
		}
		switch o.Status {
		case "assert", "panic", "hang", "crash":
			m := o.Msg
			if o.Status != "assert" {
				m = o.Status + ": " + m
			}
			k := o.Status + "|" + o.Msg
			if !seen[k] {
				seen[k] = true
				out.viol = append(out.viol, violation{Property: prop, Kind: o.Status, Msg: m, Native: o.Status + " " + o.Msg, Input: in, Source: source})
			}
		}
		return o
	}
	for _, c := range r.Candidates {
		o := native(c.Kind, c.Msg, "solver", c.Vals, c.Choices)
		if o.Status == "ok" || o.Status == "assume" || o.Status == "error" {
			out.unreproduced = append(out.unreproduced, fmt.Sprintf("%s %q: native run says %s %s", c.Kind, c.Msg, o.Status, o.Msg))
		}
	}
	for _, s := range r.Samples {
		if s.Forced != "" {
			native("forced", s.Forced, "path not finished symbolically: "+s.Forced, s.Vals, s.Choices)
			out.forcedRuns++
			continue
		}
		o := native("sample", "", "path valuation", s.Vals, s.Choices)
		if o.Status == "ok" && fmt.Sprint(o.Observed) == fmt.Sprint(s.Observed) {
			out.validated++
		} else {
			out.mismatched = append(out.mismatched, fmt.Sprintf("engine %v, native %s %s %v", s.Observed, o.Status, o.Msg, o.Observed))
		}
	}
	for _, w := range h.witnesses() {
		if r.Stats.Reached[w] == 0 {
			out.missing = append(out.missing, w)
		}
	}
	return out
}

func tierNum(t string) int {
	if t == "thorough" {
		return 1
	}
	return 0
}

// total is the time a whole check may take.
func total(tier int) time.Duration {
	if tier > 0 {
		return 3 * time.Hour
	}
	return 600 * time.Second
}

func check(id, tier string) int {
	p := findProp(id)
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %s\n", id)
		return 2
	}
	start := time.Now()
	cfg := load()
	rp := &engine.Replayer{Bin: *bin, Race: *race, Timeout: 20 * time.Second}
	defer rp.Close()
	known := readKnown(filepath.Join(*root, "known_findings.txt"))
	tn := tierNum(tier)

	var viols, known1 []violation
	fns, stubs, notes := map[string]bool{}, map[string]int{}, map[string]int{}
	cov := map[string]interface{}{}
	var states, transitions, validated, obligations, solverObl, queries, sat, unsat, unk, steps, forced, merges int
	var solverTime time.Duration
	incomplete := map[string]int{}
	var samples, unrep, mism []string
	perH := []map[string]interface{}{}
	var inconclusive []string
	for _, h := range p.Hs {
		if tn == 0 && h.ThoroughOnly {
			continue
		}
		if len(viols) > 0 {
			incomplete[h.Name+": not explored, a violation having been found"]++
			continue
		}
		left := total(tn) - time.Since(start)
		if left < time.Second {
			incomplete[h.Name+": not explored, the time of the check being up"]++
			continue
		}
		o := runHarness(cfg, rp, id, h, tn, left, func(msg string) bool { return matchKnown(known, id, h.Name, msg) != nil })
		r := o.r
		states += r.Paths
		transitions += r.Stats.Branches + r.Stats.Merges
		merges += r.Stats.Merges
		validated += o.validated
		obligations += r.Stats.Obligations
		solverObl += r.Stats.SolverObl
		queries += r.Queries
		sat, unsat, unk = sat+r.NSat, unsat+r.NUnsat, unk+r.NUnknown
		steps += r.Steps
		forced += o.forcedRuns
		solverTime += r.SolverTime
		for k := range r.Stats.Fns {
			fns[k] = true
		}
		for k, v := range r.Stats.Stubs {
			stubs[k] += v
		}
		for k, v := range r.Stats.Notes {
			notes[k] += v
		}
		for k, v := range r.Incomplete {
			incomplete[h.Name+": "+k] += v
		}
		for k, v := range r.Unsupported {
			incomplete[h.Name+": not encoded: "+k] += v
		}
		if r.Pending > 0 {
			incomplete[h.Name+": paths left when the time budget ended"] += r.Pending
		}
		for i, s := range r.Samples {
			if i < 3 {
				samples = append(samples, fmt.Sprintf("%s choices=%v inputs=%v", h.Name, s.Choices, s.Vals))
			}
		}
		unrep = append(unrep, o.unreproduced...)
		mism = append(mism, o.mismatched...)
		perH = append(perH, map[string]interface{}{"harness": h.Name, "paths": r.Paths, "assumed_away": r.Assumed, "complete": r.Complete(),
			"obligations": r.Stats.Obligations, "obligations_by_solver": r.Stats.SolverObl, "queries": r.Queries, "wall_s": r.Wall.Seconds(), "solver_s": r.SolverTime.Seconds(),
			"witnesses_reached": r.Stats.Reached, "longest_path_decisions": r.MaxDecs})
		if len(o.missing) > 0 {
			inconclusive = append(inconclusive, fmt.Sprintf("%s: witness %s not reached", h.Name, strings.Join(o.missing, ", ")))
		}
		for _, v := range o.viol {
			v.Input.Tier = tn
			if k := matchKnown(known, id, h.Name, v.Msg); k != nil {
				k.hit = true
				known1 = append(known1, v)
			} else {
				viols = append(viols, v)
			}
		}
		if *verbose {
			fmt.Printf("%s: %d paths, %d queries, %.1f s, complete %v, candidates %d\n", h.Name, r.Paths, r.Queries, r.Wall.Seconds(), r.Complete(), len(r.Candidates))
			for k, n := range r.Unsupported {
				fmt.Println("  not encoded:", n, k)
			}
			for k, n := range r.Incomplete {
				fmt.Println("  incomplete:", n, k)
			}
			for _, u := range o.unreproduced {
				fmt.Println("  unreproduced:", u)
			}
			for i, u := range o.mismatched {
				if i < 3 {
					fmt.Println("  mismatch:", u)
				}
			}
		}
	}
	if len(samples) == 0 {
		samples = []string{"no path finished"}
	}
	cov["states"] = states
	cov["transitions"] = transitions
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["explanation"] = "states: symbolic paths explored to their end; transitions: branch decisions taken or merged on them; traces_validated_against_impl: path valuations whose native run gave the observations the engine predicted"
	cov["obligations"] = obligations
	cov["obligations_decided_by_solver"] = solverObl
	cov["queries"] = queries
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["solver_time_s"] = solverTime.Seconds()
	cov["instructions_executed"] = steps
	cov["functions_encoded"] = targetFns(fns)
	cov["library_functions_encoded"] = len(fns) - len(targetFns(fns))
	cov["library_models"] = stubs
	cov["engine_notes"] = notes
	cov["bounds"] = p.bounds(tn)
	cov["outside_the_bounds"] = p.Outside
	cov["incomplete"] = incomplete
	cov["exhaustive"] = len(incomplete) == 0 && len(inconclusive) == 0
	cov["harnesses"] = perH
	cov["forced_native_runs"] = forced
	cov["candidates_not_reproduced"] = unrep
	cov["validation_mismatches"] = mism
	cov["inconclusive"] = inconclusive
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(viols),
		"assumptions": append(append([]string{}, commonAssumptions...), p.Assume...),
	}
	_ = os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range known {
		if k.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
		}
	}
	for _, s := range inconclusive {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, s)
	}
	for _, s := range unrep {
		fmt.Printf("NOTE property=%s counterexample not reproduced natively: %s\n", id, s)
	}
	var ik []string
	for k, n := range incomplete {
		ik = append(ik, fmt.Sprintf("%s (%d)", k, n))
	}
	sort.Strings(ik)
	for _, s := range ik {
		fmt.Printf("NOTE property=%s incomplete: %s\n", id, s)
	}
	fmt.Printf("property=%s tier=%s paths=%d obligations=%d queries=%d solver=%.1fs wall=%.1fs exhaustive=%v\n", id, tier, states, obligations, queries, solverTime.Seconds(), time.Since(start).Seconds(), cov["exhaustive"])
	if len(viols) == 0 {
		return 0
	}
	dir := filepath.Join(*root, "out")
	_ = os.MkdirAll(dir, 0o755)
	for i, v := range viols {
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i))
		v.Replay = "/verif/check.sh replay " + f
		b, _ := json.MarshalIndent(v, "", " ")
		_ = os.WriteFile(f, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n", v.Input.Harness, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	return 1
}

// targetFns keeps the functions of the code under test.
func targetFns(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		if strings.Contains(k, "Comcast/scte35-go") {
			out = append(out, strings.ReplaceAll(k, "github.com/Comcast/scte35-go/", ""))
		}
	}
	sort.Strings(out)
	return out
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	var v violation
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := &engine.Replayer{Bin: *bin, Race: *race, Timeout: 20 * time.Second}
	defer rp.Close()
	o := rp.Run(v.Input)
	fmt.Printf("%s: %s %s\n", v.Input.Harness, o.Status, o.Msg)
	for _, s := range o.Observed {
		fmt.Println(" ", s)
	}
	if o.Status == "ok" || o.Status == "assume" {
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
	return 1
}

// dev explores one harness and prints what happened.
func dev(name, tier string) {
	cfg := load()
	rp := &engine.Replayer{Bin: *bin, Race: *race, Timeout: 20 * time.Second}
	defer rp.Close()
	o := runHarness(cfg, rp, "dev", findH(name), tierNum(tier), time.Hour, func(string) bool { return false })
	r := o.r
	fmt.Printf("%s: paths %d assumed %d pending %d steps %d wall %.1fs queries %d (sat %d unsat %d unk %d) %.1fs\n", name, r.Paths, r.Assumed, r.Pending, r.Steps, r.Wall.Seconds(), r.Queries, r.NSat, r.NUnsat, r.NUnknown, r.SolverTime.Seconds())
	fmt.Printf("  obl %d trivial %d solver %d branches %d merges %d reached %v\n", r.Stats.Obligations, r.Stats.Trivial, r.Stats.SolverObl, r.Stats.Branches, r.Stats.Merges, r.Stats.Reached)
	fmt.Printf("  complete %v missing %v validated %d mismatched %d forced %d solvererrs %v\n", r.Complete(), o.missing, o.validated, len(o.mismatched), o.forcedRuns, r.SolverErrs)
	for k, n := range r.Unsupported {
		fmt.Println("  not encoded:", n, k)
	}
	for k, n := range r.Incomplete {
		fmt.Println("  incomplete:", n, k)
	}
	for k, n := range r.Stats.Notes {
		fmt.Println("  note:", n, k)
	}
	for _, v := range o.viol {
		fmt.Println("  VIOL", v.Msg, v.Source, v.Input.Vals, v.Input.Choices)
	}
	for _, u := range o.unreproduced {
		fmt.Println("  unreproduced:", u)
	}
	for i, u := range o.mismatched {
		if i < 5 {
			fmt.Println("  mismatch:", u)
		}
	}
}

// races tells whether a property, harness or replay file needs a runner built with
// -race.
func races(args []string) bool {
	for _, a := range args {
		if p := findProp(a); p != nil {
			for _, h := range p.Hs {
				if strings.HasPrefix(h.Name, "Together") {
					return true
				}
			}
		}
		var v violation
		if b, err := os.ReadFile(a); err == nil && json.Unmarshal(b, &v) == nil && strings.HasPrefix(v.Input.Harness, "Together") {
			return true
		}
		if strings.HasPrefix(a, "Together") {
			return true
		}
	}
	return false
}
