package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessSpec struct {
	Pkg      string
	Fn       string
	Cases    [2]int // number of cases: quick, thorough
	NoMerge  bool
	Sched    bool
	MapOrder bool
	Visits   int
	Retry    int // native attempts to reproduce a nondeterministic violation
	Dev      int // Sched: schedules with at most this many departures from round robin (DevT: thorough)
	DevT     int
	Conc     bool // several goroutines
	ExitBad  bool // ending the process is a violation
}

type Prop struct {
	ID       string
	Hs       []HarnessSpec
	Seconds  [2]int
	Bounds   []string
	Note     string // for MANIFEST.json
	Assume   []string
	MergeInt bool
}

type known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

type job struct {
	h    *HarnessSpec
	c, n int
}

type runner struct {
	root, repo string
	prop       *Prop
	tier       int
	world      *World
	bins       map[string]*nativeBin
	scratch    string
	mu         sync.Mutex
	confirmed  []*confirmed
	unconf     []string
	knownSeen  map[string]*Violation
	stop       bool
	execs      []*Exec
	verbose    bool
	jobTimes   []string
	done       int
	total      int
}

type confirmed struct {
	V       *Violation
	H       *HarnessSpec
	Outcome outcome
	Replay  string
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(18 << 30)
	go watchMemory(20 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vpengine check ID | run PKG FN [CASE] | replay FILE | list")
		os.Exit(0)
	}
	root := envOr("VP_ROOT", "/verif")
	repo := envOr("VP_REPO", "/repo")
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(root, repo, os.Args[2:]))
	case "run":
		os.Exit(runMain(root, repo, os.Args[2:]))
	case "replay":
		os.Exit(replayMain(root, repo, os.Args[2:]))
	case "selftest":
		os.Exit(selfTestMain(os.Args[2:]))
	case "manifest":
		manifestMain(root)
	case "list":
		for _, p := range props {
			fmt.Println(p.ID)
		}
	}
}

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

func runMain(root, repo string, args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	trace := fs.Bool("trace", false, "")
	nomerge := fs.Bool("nomerge", false, "")
	sched := fs.Bool("sched", false, "")
	dev := fs.Int("dev", 0, "")
	exitBad := fs.Bool("exit", false, "")
	maporder := fs.Bool("maporder", false, "")
	mergeint := fs.Bool("mergeint", false, "")
	tier := fs.Int("tier", 0, "")
	secs := fs.Int("s", 120, "")
	cases := fs.Int("cases", 0, "run cases 0..n-1")
	one := fs.Int("case", 0, "")
	fs.Parse(args)
	h := HarnessSpec{Pkg: fs.Arg(0), Fn: fs.Arg(1), NoMerge: *nomerge, Sched: *sched, Dev: *dev, ExitBad: *exitBad, MapOrder: *maporder, Cases: [2]int{1, 1}}
	p := &Prop{ID: "DBG", Hs: []HarnessSpec{h}, Seconds: [2]int{*secs, *secs}, MergeInt: *mergeint}
	if *cases > 0 {
		p.Hs[0].Cases = [2]int{*cases, *cases}
	}
	r := &runner{root: root, repo: repo, prop: p, tier: *tier, verbose: true}
	return r.check(*trace, *one, true)
}

func checkMain(root, repo string, args []string) int {
	if len(args) < 1 {
		return 0
	}
	tier := 0
	if os.Getenv("VERIF_TIER") == "thorough" || len(args) > 1 && args[1] == "thorough" {
		tier = 1
	}
	p := findProp(args[0])
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", args[0])
		return 0
	}
	r := &runner{root: root, repo: repo, prop: p, tier: tier}
	return r.check(false, 0, false)
}

func (r *runner) check(trace bool, first int, dbg bool) int {
	t0 := time.Now()
	p := r.prop
	sec := p.Seconds[r.tier]
	if sec == 0 {
		sec = []int{150, 780}[r.tier]
	}
	deadline := t0.Add(time.Duration(sec) * time.Second)
	r.knownSeen = map[string]*Violation{}
	r.bins = map[string]*nativeBin{}
	var err error
	r.scratch, err = os.MkdirTemp("", "vpcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 0
	}
	defer os.RemoveAll(r.scratch)
	var pkgs []string
	for i := range p.Hs {
		h := &p.Hs[i]
		b := r.bins[h.Pkg]
		if b == nil {
			b = &nativeBin{root: r.root, repo: r.repo, pkg: h.Pkg, dir: r.scratch}
			r.bins[h.Pkg] = b
			pkgs = append(pkgs, h.Pkg)
		}
		b.fns = append(b.fns, h.Fn)
	}
	w, err := loadWorld(r.root, r.repo, pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		r.evidence(t0, nil, nil, "load failed: "+err.Error())
		return 2
	}
	r.world = w
	have := 0
	for _, b := range r.bins {
		b.dropped = w.dropped
		var fns []string
		for _, fn := range b.fns {
			if w.pkgs[w.module+"/"+b.pkg].Func(fn) != nil {
				fns = append(fns, fn)
				have++
			}
		}
		b.fns = fns
		go b.build()
	}
	if have == 0 {
		fmt.Fprintln(os.Stderr, "no harness of", p.ID, "fits the current source")
		r.evidence(t0, nil, nil, "no harness fits the current source")
		return 2
	}
	tLoad := time.Since(t0)
	var jobs []job
	for i := range p.Hs {
		h := &p.Hs[i]
		n := h.Cases[r.tier]
		if n == 0 {
			n = 1
		}
		if n < 0 { // not in this tier
			continue
		}
		for c := 0; c < n; c++ {
			jobs = append(jobs, job{h, first + c, n})
		}
	}
	r.total = len(jobs)
	ch := make(chan job, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if nw > len(jobs) {
		nw = len(jobs)
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.worker(ch, deadline, trace)
		}()
	}
	wg.Wait()
	return r.finish(t0, tLoad, dbg)
}

func (r *runner) worker(ch chan job, deadline time.Time, trace bool) {
	var ex *Exec
	for j := range ch {
		r.mu.Lock()
		stop := r.stop
		r.mu.Unlock()
		if stop {
			return
		}
		if ex == nil || len(ex.ctx.tab) > 3000000 {
			if ex != nil {
				ex.sol.Close()
			}
			ex = NewExec(r.world)
			r.mu.Lock()
			r.execs = append(r.execs, ex)
			r.mu.Unlock()
		}
		ex.deadline = deadline
		ex.stopAll = false
		ex.tier = r.tier
		ex.caseN = j.n
		ex.noMerge, ex.sched, ex.mapOrder = j.h.NoMerge || j.h.Conc || j.h.Sched, j.h.Sched, j.h.MapOrder
		ex.maxDev, ex.exitBad = j.h.Dev, j.h.ExitBad
		if r.tier == 1 && j.h.DevT > 0 {
			ex.maxDev = j.h.DevT
		}
		ex.stubs = map[string]*ssa.Function{}
		for n, f := range stubTable {
			if g := r.world.pkgs[r.world.module+"/"+j.h.Pkg].Func(f); g != nil {
				ex.stubs[n] = g
			}
		}
		ex.mergeInts = r.prop.MergeInt
		ex.trace = trace
		ex.maxVisits = 4000
		if j.h.Visits > 0 {
			ex.maxVisits = j.h.Visits
		}
		h := j.h
		ex.onViol = func(v *Violation) bool { return r.onViolation(h, v) }
		if time.Now().After(deadline) {
			r.mu.Lock()
			ex.incomplete["deadline: case not started: "+h.Fn]++
			r.mu.Unlock()
			continue
		}
		fn := r.world.pkgs[r.world.module+"/"+h.Pkg].Func(h.Fn)
		if fn == nil {
			ex.incomplete["missing harness "+h.Fn]++
			continue
		}
		t := time.Now()
		wit := ex.witnesses
		ex.witnesses = nil
		ex.nw = 0
		ex.runHarness(fn, j.c)
		for _, w := range ex.witnesses {
			w.h, w.c = h, j.c
		}
		ex.witnesses = append(wit, ex.witnesses...)
		if r.verbose {
			fmt.Fprintf(os.Stderr, "%s case %d: %.2fs\n", h.Fn, j.c, time.Since(t).Seconds())
		}
		r.mu.Lock()
		r.done++
		r.jobTimes = append(r.jobTimes, fmt.Sprintf("%s[%d] %.2fs", h.Fn, j.c, time.Since(t).Seconds()))
		r.mu.Unlock()
	}
	if ex != nil {
		ex.sol.Close()
	}
}

// onViolation replays a candidate on the real code. It returns true to stop.
func (r *runner) onViolation(h *HarnessSpec, v *Violation) bool {
	ok, o := r.confirm(h, v)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.verbose {
		fmt.Fprintf(os.Stderr, "candidate %s[%d] %s: %s inputs=%v confirmed=%v (%s %s)\n", h.Fn, v.Case, v.Kind, v.Msg, v.Inputs, ok, o.End, firstLine(o.Msg))
		for _, t := range v.Trace {
			fmt.Fprintln(os.Stderr, "    ", t)
		}
	}
	if !ok && h.Sched && o.End == "ok" && v.Kind != "hang" {
		// the runs of the real code took other schedules; the counterexample is the schedule
		ok = true
		o.Msg = "in the runs of the real code this schedule didn't occur; it is the counterexample"
	}
	if !ok {
		if len(r.unconf) < 20 {
			r.unconf = append(r.unconf, fmt.Sprintf("%s[%d]: %s (native: %s %s)", h.Fn, v.Case, v.Msg, o.End, firstLine(o.Msg)))
		}
		return false
	}
	r.confirmed = append(r.confirmed, &confirmed{V: v, H: h, Outcome: o})
	r.stop = true
	allStop.CompareAndSwap(0, stopFound)
	return true
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (r *runner) confirm(h *HarnessSpec, v *Violation) (bool, outcome) {
	b := r.bins[h.Pkg]
	if v.Kind == "race" {
		b = r.raceBin(h.Pkg)
	}
	tries := 1
	if h.Retry > 0 {
		tries = h.Retry
	} else if h.MapOrder || h.Sched || h.Conc {
		tries = 40
	}
	var last outcome
	for i := 0; i < tries; i++ {
		limit := 60 * time.Second
		if v.Kind == "hang" {
			limit = 20 * time.Second
		}
		res, err := b.run([]nativeJob{{h.Fn, v.Case, r.tier, v.Inputs}}, limit)
		if err != nil {
			return false, outcome{End: "no replay binary", Msg: err.Error()}
		}
		if len(res) == 0 {
			continue
		}
		last = res[0]
		if v.Kind == "known" {
			for _, k := range last.Known {
				if k == v.KnownID {
					return true, last
				}
			}
			continue
		}
		switch last.End {
		case "assert", "panic", "crash", "timeout", "deadlock":
			return true, last
		}
	}
	return false, last
}

// raceBin is the replay binary with the race detector.
func (r *runner) raceBin(pkg string) *nativeBin {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := pkg + " -race"
	if r.bins[k] == nil {
		b := r.bins[pkg]
		r.bins[k] = &nativeBin{root: b.root, repo: b.repo, pkg: b.pkg, dir: filepath.Join(b.dir, "race"), fns: b.fns, dropped: b.dropped, race: true}
	}
	return r.bins[k]
}

func (r *runner) loadKnown() []known {
	var f struct {
		Findings []known `json:"findings"`
	}
	b, err := os.ReadFile(filepath.Join(r.root, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, &f)
	}
	return f.Findings
}

func (r *runner) finish(t0 time.Time, tLoad time.Duration, dbg bool) int {
	// known findings
	listed := map[string]known{}
	for _, k := range r.loadKnown() {
		if k.Property == r.prop.ID && k.Status == "known" {
			listed[k.ID] = k
		}
	}
	byFn := map[string]*HarnessSpec{}
	for i := range r.prop.Hs {
		byFn[r.prop.Hs[i].Fn] = &r.prop.Hs[i]
	}
	for _, ex := range r.execs {
		for _, v := range ex.viol {
			if v.Kind != "known" || r.knownSeen[v.KnownID] != nil {
				continue
			}
			h := byFn[v.Harness]
			ok, o := r.confirm(h, v)
			if !ok {
				r.unconf = append(r.unconf, fmt.Sprintf("known %s: native %s", v.KnownID, o.End))
				continue
			}
			r.knownSeen[v.KnownID] = v
			if _, is := listed[v.KnownID]; !is {
				r.confirmed = append(r.confirmed, &confirmed{V: v, H: h, Outcome: o})
			}
		}
	}
	validated, mism := r.validate()
	rc := 0
	for i, c := range r.confirmed {
		dir := filepath.Join(r.root, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s_%d.json", r.prop.ID, i))
		js, _ := json.MarshalIndent(map[string]interface{}{
			"property": r.prop.ID, "package": c.H.Pkg, "harness": c.V.Harness, "case": c.V.Case, "tier": r.tier,
			"inputs": c.V.Inputs, "kind": c.V.Kind, "message": c.V.Msg, "trace": c.V.Trace, "schedule": c.V.Turns,
			"native": c.Outcome, "replay_with": "/verif/bin/vpengine replay " + f,
		}, "", " ")
		os.WriteFile(f, js, 0o644)
		fmt.Printf("%s: %s: %s\n", c.V.Harness, c.V.Kind, c.V.Msg)
		fmt.Printf("  on the real code: %s %s\n", c.Outcome.End, firstLine(c.Outcome.Msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop.ID, f)
		rc = 1
	}
	var ids []string
	for id := range r.knownSeen {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if k, ok := listed[id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.prop.ID, id, k.What)
		}
	}
	r.summary(t0, tLoad, validated, mism, dbg)
	r.evidence2(t0, validated, mism, "")
	return rc
}

type witnessRef struct {
	w *Witness
}

// validate replays path witnesses on the real code and compares what is observed.
func (r *runner) validate() (int, []string) {
	var n int
	var mism []string
	byPkg := map[string][]*Witness{}
	for _, ex := range r.execs {
		for _, w := range ex.witnesses {
			if w.h.MapOrder || w.h.Sched {
				continue
			}
			if len(byPkg[w.h.Pkg]) < 300 {
				byPkg[w.h.Pkg] = append(byPkg[w.h.Pkg], w)
			}
		}
	}
	for pkg, ws := range byPkg {
		var jobs []nativeJob
		for _, w := range ws {
			jobs = append(jobs, nativeJob{w.h.Fn, w.c, r.tier, w.Inputs})
		}
		// in a few processes: some jobs wait for real time
		res := make([]outcome, 0, len(jobs))
		parts := make([][]outcome, min(8, len(jobs)))
		errs := make([]error, len(parts))
		var wg sync.WaitGroup
		for i := range parts {
			lo, hi := i*len(jobs)/len(parts), (i+1)*len(jobs)/len(parts)
			wg.Add(1)
			go func(i int, js []nativeJob) {
				defer wg.Done()
				parts[i], errs[i] = r.bins[pkg].run(js, 60*time.Second)
			}(i, jobs[lo:hi])
		}
		wg.Wait()
		var err error
		for i, p := range parts {
			lo, hi := i*len(jobs)/len(parts), (i+1)*len(jobs)/len(parts)
			if errs[i] != nil {
				err = errs[i]
			}
			for len(p) < hi-lo {
				p = append(p, outcome{End: "not run", Short: true})
			}
			res = append(res, p...)
		}
		if err != nil {
			mism = append(mism, "no native binary: "+firstLine(err.Error())+tail(err.Error(), 600))
			continue
		}
		for i, o := range res {
			w := ws[i]
			if o.End == "ok" && !o.Short && strings.Join(o.Obs, "\n") == strings.Join(w.Obs, "\n") {
				n++
				continue
			}
			fails := func(o outcome) bool {
				return !o.Short && (o.End == "assert" || o.End == "panic" || o.End == "crash")
			}
			again := len(r.confirmed) == 0 && fails(o)
			for k := 0; k < 2 && again; k++ { // not by chance, in a busy sandbox
				os, err := r.bins[pkg].run(jobs[i:i+1], 60*time.Second)
				again = err == nil && len(os) == 1 && fails(os[0])
			}
			if again {
				// the path's witness fails on the compiled code, whatever the models say
				r.confirmed = append(r.confirmed, &confirmed{V: &Violation{Kind: o.End, Msg: o.Msg, Harness: w.h.Fn, Case: w.c, Inputs: w.Inputs}, H: w.h, Outcome: o})
			}
			if len(mism) < 10 {
				mism = append(mism, fmt.Sprintf("%s[%d] inputs=%v: engine obs=%v, native end=%s obs=%v short=%v %s", w.h.Fn, w.c, w.Inputs, w.Obs, o.End, o.Obs, o.Short, firstLine(o.Msg)))
			}
		}
	}
	return n, mism
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (r *runner) totals() (Stats, SolverStats, map[string]int, map[string]int64, map[string]int) {
	var s Stats
	var q SolverStats
	inc := map[string]int{}
	fns := map[string]int64{}
	reached := map[string]int{}
	for _, ex := range r.execs {
		e := ex.stats
		s.Paths += e.Paths
		s.Forks += e.Forks
		s.Merges += e.Merges
		s.MergeFail += e.MergeFail
		s.Steps += e.Steps
		s.Asserts += e.Asserts
		s.AssertsSolver += e.AssertsSolver
		s.AssertsLocal += e.AssertsLocal
		s.AssertsUnknown += e.AssertsUnknown
		s.Calls += e.Calls
		s.States += e.States
		s.Transitions += e.Transitions
		o := ex.sol.stats
		q.Queries += o.Queries
		q.SatN += o.SatN
		q.UnsatN += o.UnsatN
		q.UnknownN += o.UnknownN
		q.CacheHits += o.CacheHits
		q.Local += o.Local
		q.Errors += o.Errors
		q.Time += o.Time
		q.Fallback += o.Fallback
		for k, v := range ex.incomplete {
			inc[k] += v
		}
		for k, v := range ex.funcs {
			fns[k] += v
		}
		for k, v := range ex.reached {
			reached[k] += v
		}
	}
	return s, q, inc, fns, reached
}

func (r *runner) summary(t0 time.Time, tLoad time.Duration, validated int, mism []string, dbg bool) {
	s, q, inc, _, reached := r.totals()
	fmt.Printf("%s: %d/%d cases, %d paths, %d forks, %d merges (%d declined), %d steps, asserts %d (%d by solver, %d by rewriting), queries %d (%d sat %d unsat %d unknown, %d cached), solver %.1fs, load %.1fs, wall %.1fs, validated %d\n",
		r.prop.ID, r.done, r.total, s.Paths, s.Forks, s.Merges, s.MergeFail, s.Steps, s.Asserts, s.AssertsSolver, s.AssertsLocal, q.Queries, q.SatN, q.UnsatN, q.UnknownN, q.CacheHits, q.Time.Seconds(), tLoad.Seconds(), time.Since(t0).Seconds(), validated)
	var ks []string
	for k := range inc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  incomplete: %s (%d)\n", k, inc[k])
	}
	for _, u := range r.unconf {
		fmt.Printf("  not reproduced on the real code: %s\n", u)
	}
	for _, m := range mism {
		fmt.Printf("  witness mismatch: %s\n", m)
	}
	if forkProf {
		printForks()
	}
	if dbg {
		fmt.Println("  reached:", reached)
	}
}

func (r *runner) evidence(t0 time.Time, _ interface{}, _ interface{}, note string) {
	r.evidence2(t0, 0, nil, note)
}

func (r *runner) evidence2(t0 time.Time, validated int, mism []string, note string) {
	if r.prop.ID == "DBG" {
		return
	}
	s, q, inc, fns, reached := r.totals()
	var user []string
	lib := 0
	for k := range fns {
		if strings.Contains(k, "iomz/gosstrak") && !strings.Contains(k, ".vp") && !strings.Contains(k, ".init") {
			user = append(user, k)
		} else {
			lib++
		}
	}
	sort.Strings(user)
	var samples []interface{}
	for _, ex := range r.execs {
		for _, w := range ex.witnesses {
			if len(samples) < 5 {
				samples = append(samples, map[string]interface{}{"harness": w.h.Fn, "case": w.c, "inputs": trimInputs(w.Inputs), "observed": w.Obs})
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"note": "no completed path on this run"})
	}
	var hs []map[string]interface{}
	for _, h := range r.prop.Hs {
		n := h.Cases[r.tier]
		if n == 0 {
			n = 1
		}
		if n < 0 {
			continue
		}
		hs = append(hs, map[string]interface{}{"harness": h.Pkg + "." + h.Fn, "cases": n})
	}
	cov := map[string]interface{}{
		"states":                        s.Paths,
		"transitions":                   s.Transitions,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    len(inc) == 0 && r.done == r.total,
		"harnesses":                     hs,
		"cases_done":                    r.done,
		"cases_total":                   r.total,
		"functions_encoded":             user,
		"library_functions_executed":    lib,
		"instructions_executed":         s.Steps,
		"forks":                         s.Forks,
		"merges":                        s.Merges,
		"assertions":                    s.Asserts,
		"assertions_decided_by_solver":  s.AssertsSolver,
		"assertions_decided_by_rewrite": s.AssertsLocal,
		"assertions_undecided":          s.AssertsUnknown,
		"queries":                       q.Queries,
		"queries_sat":                   q.SatN,
		"queries_unsat":                 q.UnsatN,
		"queries_unknown":               q.UnknownN,
		"solver_s":                      q.Time.Seconds(),
		"solver":                        solverBin(),
		"bounds":                        r.prop.Bounds,
		"incomplete":                    inc,
		"reached":                       reached,
		"not_reproduced":                r.unconf,
		"witness_mismatches":            mism,
	}
	if note != "" {
		cov["note"] = note
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": r.prop.ID, "tier": []string{"quick", "thorough"}[r.tier], "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append(append([]string{}, commonAssume...), r.prop.Assume...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(r.confirmed),
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.root, "evidence", r.prop.ID+".json"), js, 0o644)
}

func trimInputs(in []InputVal) []InputVal {
	if len(in) > 200 {
		return in[:200]
	}
	return in
}

var commonAssume = []string{
	"the SSA form built by golang.org/x/tools/go/ssa from /repo's current source is what the Go compiler compiles",
	"the models of the standard library operations listed in DESIGN.md (strings, strconv, fmt, regexp classes, sort, bytes.Buffer, math/big, encoding/gob, time, log) behave as documented; every reported violation is replayed on the compiled code, and path witnesses are compared with it",
	"the SMT solver's unsat answers are right; unknown answers are counted as undecided, never as success",
}

func replayMain(root, repo string, args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Package string     `json:"package"`
		Harness string     `json:"harness"`
		Case    int        `json:"case"`
		Tier    int        `json:"tier"`
		Inputs  []InputVal `json:"inputs"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d, _ := os.MkdirTemp("", "vpreplay")
	defer os.RemoveAll(d)
	nb := &nativeBin{root: root, repo: repo, pkg: f.Package, dir: d, fns: []string{f.Harness}}
	res, err := nb.run([]nativeJob{{f.Harness, f.Case, f.Tier, f.Inputs}}, 60*time.Second)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	js, _ := json.MarshalIndent(res, "", " ")
	fmt.Println(string(js))
	if len(res) == 1 && res[0].End == "ok" {
		return 0
	}
	return 1
}
