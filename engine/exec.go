package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, args []Value) Value

// pushedFrame is returned by an intrinsic that pushed a frame itself.
type pushedFrame struct{}

type Violation struct {
	Kind    string // assert | panic | deadlock | exit
	Msg     string
	Inputs  []InputVal
	Trace   []string
	Harness string
	Case    int
	Pos     string
	Turns   []string // Sched: departures from round robin
	KnownID string
}

type InputVal struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
}

type Witness struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []string   `json:"obs"`
	End    string     `json:"end"`
	h      *HarnessSpec
	c      int
}

type Stats struct {
	Paths, Forks, Merges, MergeFail int64
	Steps                           int64
	Asserts, AssertsSolver          int64
	AssertsLocal, AssertsUnknown    int64
	Calls                           int64
	States                          int64
	Transitions                     int64
}

type Exec struct {
	w       *World
	ctx     *Ctx
	sol     *Solver
	lay     *layoutCache
	infos   map[*ssa.Function]*FnInfo
	consts  map[*ssa.Const]Value
	intr    map[string]intrinsic
	varsOf  map[*T][]int32
	factLit map[*T]bool

	stats      Stats
	incomplete map[string]int
	viol       []*Violation
	violKeys   map[string]int
	onViol     func(v *Violation) bool // returns true to stop everything
	witnesses  []*Witness
	maxWit     int
	reached    map[string]int
	funcs      map[string]int64
	deadline   time.Time
	stopAll    bool
	harness    string
	caseNo     int
	caseN      int
	tier       int
	noMerge    bool
	mapOrder   bool
	sched      bool
	maxDev     int
	exitBad    bool
	maxVisits  int
	qTimeout   time.Duration
	aTimeout   time.Duration
	mayFn      map[string]bool
	trace      bool
	stubs      map[string]*ssa.Function
	knownIDs   map[string]bool
	lastPos    string
	initing    int
	mergeInts  bool
	raceFns    map[*ssa.Function]bool
	floatCnt   int
	nw         int64
}

func NewExec(w *World) *Exec {
	ctx := NewCtx()
	ex := &Exec{w: w, ctx: ctx, sol: NewSolver(ctx), lay: newLayout(), infos: map[*ssa.Function]*FnInfo{}, consts: map[*ssa.Const]Value{}, varsOf: map[*T][]int32{}, incomplete: map[string]int{}, violKeys: map[string]int{}, reached: map[string]int{}, funcs: map[string]int64{}, maxVisits: 4000, qTimeout: 20 * time.Second, aTimeout: 60 * time.Second, maxWit: 6, factLit: map[*T]bool{}, knownIDs: map[string]bool{}}
	ex.intr = intrinsics
	return ex
}

// ---------- feasibility ----------

func (ex *Exec) vars(t *T) []int32 {
	if v, ok := ex.varsOf[t]; ok {
		return v
	}
	var out []int32
	if t.op == OVar || t.op == OBVar {
		out = []int32{int32(t.id)}
	} else {
		set := map[int32]bool{}
		for _, a := range t.args {
			for _, v := range ex.vars(a) {
				set[v] = true
			}
		}
		for _, p := range t.pieces {
			if p.a != nil {
				for _, v := range ex.vars(p.a) {
					set[v] = true
				}
			}
		}
		for v := range set {
			out = append(out, v)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	}
	ex.varsOf[t] = out
	return out
}

// slice returns the literals of the path condition connected with lit.
func (ex *Exec) slice(st *State, lit *T) []*T {
	lits := st.lits()
	in := map[int32]bool{}
	for _, v := range ex.vars(lit) {
		in[v] = true
	}
	used := make([]bool, len(lits))
	out := []*T{lit}
	for changed := true; changed; {
		changed = false
		for i, l := range lits {
			if used[i] {
				continue
			}
			vs := ex.vars(l)
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, l)
				for _, v := range vs {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

func (st *State) hasLit(l *T) bool {
	for p := st.pc; p != nil; p = p.parent {
		if p.lit == l {
			return true
		}
	}
	return false
}

// sat decides pc && lit. On Sat it returns an evaluator whose model satisfies
// the whole path condition (nil when no full model is known).
func (ex *Exec) sat(st *State, lit *T, timeout time.Duration) (Result, *evaluator) {
	if lit == ex.ctx.tFalse {
		return Unsat, nil
	}
	if lit == ex.ctx.tTrue {
		return Sat, st.ev
	}
	if st.ev != nil && st.ev.eval(lit) == 1 {
		ex.sol.stats.CacheHits++
		return Sat, st.ev
	}
	if lit.op == OBAnd {
		for _, a := range lit.args {
			if st.hasLit(ex.ctx.Not(a)) {
				return Unsat, nil
			}
		}
	} else if st.hasLit(ex.ctx.Not(lit)) {
		return Unsat, nil
	}
	var q []*T
	if st.ev == nil {
		q = append(st.lits(), lit)
	} else {
		q = ex.slice(st, lit)
	}
	r, m := ex.sol.Check(q, timeout)
	if r != Sat {
		return r, nil
	}
	full := Model{}
	if st.ev != nil {
		for k, v := range st.ev.m {
			full[k] = v
		}
	}
	for k, v := range m {
		full[k] = v
	}
	return Sat, newEval(full)
}

// decide returns the truth of cond on this path, forking when both are possible.
func (ex *Exec) decide(st *State, cond *T) bool {
	switch cond.op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	a, b := ex.split(st, cond)
	if a != nil && b != nil {
		panic(forkSignal{[]*State{a, b}})
	}
	if a == nil && b == nil {
		panic(killPath{"infeasible"})
	}
	return a != nil
}

// split returns the states for cond true/false; when only one is feasible the
// returned state is st itself (unchanged).
func (ex *Exec) split(st *State, cond *T) (*State, *State) {
	ncond := ex.ctx.Not(cond)
	if st.hasLit(cond) {
		return st, nil
	}
	if st.hasLit(ncond) {
		return nil, st
	}
	rt, et := ex.sat(st, cond, ex.qTimeout)
	if rt == Unsat {
		return nil, st
	}
	rf, ef := ex.sat(st, ncond, ex.qTimeout)
	if rf == Unsat {
		return st, nil
	}
	ex.stats.Forks++
	if forkProf {
		forkMu.Lock()
		f := st.top()
		forkAt[fmt.Sprintf("%s %s", f.fn.Name(), ex.w.prog.Fset.Position(f.pos()))]++
		forkMu.Unlock()
	}
	b := st.clone()
	a := st.clone()
	a.ev, b.ev = et, ef
	if rt == Unknown {
		a.ev = nil
	}
	if rf == Unknown {
		b.ev = nil
	}
	a.addPC(cond)
	b.addPC(ncond)
	return a, b
}

// concretize returns the concrete value of t, forking over its feasible values.
func (ex *Exec) concretize(st *State, t *T) uint64 {
	if t.isConst() {
		return t.c
	}
	for k := st.known; k != nil; k = k.parent {
		if k.t == t {
			return k.v
		}
	}
	if st.ev == nil {
		r, m := ex.sol.Check(st.lits(), ex.qTimeout)
		if r == Unsat {
			panic(killPath{"infeasible"})
		}
		if r == Unknown {
			panic(killPath{"concretization without a model"})
		}
		st.ev = newEval(m)
	}
	v := st.ev.eval(t)
	eq := ex.ctx.Eq(t, ex.ctx.Const(v, t.w))
	a, b := ex.split(st, eq)
	if b == nil {
		st.known = &Known{t, v, st.known}
		return v
	}
	if a == nil {
		panic(killPath{"infeasible"})
	}
	a.known = &Known{t, v, a.known}
	panic(forkSignal{[]*State{a, b}})
}

func (ex *Exec) concInt(st *State, v Value) int {
	t := v.(*T)
	return int(signedConst(ex.concretize(st, t), t.w))
}

// ---------- running ----------

type Stop struct {
	g     int
	depth int
	block *ssa.BasicBlock // nil: until depth drops below
}

func (s *Stop) hit(st *State) bool {
	if s == nil {
		return false
	}
	if s.g >= len(st.gs) {
		return false
	}
	g := st.gs[s.g]
	if len(g.frames) < s.depth {
		return true
	}
	if s.block != nil && len(g.frames) == s.depth {
		f := g.top()
		if f.block == s.block && f.idx == f.info.phis[f.block.Index] && f.panicV == nil {
			return true
		}
	}
	return false
}

// run executes the states until each hits stop or ends. It returns those that hit stop.
func (ex *Exec) run(work []*State, stop *Stop) []*State {
	var out []*State
	for len(work) > 0 {
		if ex.stopAll {
			return nil
		}
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for st != nil {
			if stop.hit(st) {
				out = append(out, st)
				break
			}
			if ex.checkDeadline() {
				return nil
			}
			next, more := ex.advance(st, stop)
			for i := len(more) - 1; i >= 0; i-- {
				work = append(work, more[i])
			}
			st = next
		}
	}
	return out
}

// allStop ends every execution: a violation is confirmed, or memory runs out.
var allStop atomic.Int32

const (
	stopFound = iota + 1
	stopMemory
)

func watchMemory(limit uint64) {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		metrics.Read(s)
		if s[0].Value.Uint64() > limit {
			runtime.GC()
			metrics.Read(s)
			if s[0].Value.Uint64() > limit {
				allStop.CompareAndSwap(0, stopMemory)
			}
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func (ex *Exec) checkDeadline() bool {
	ex.stats.Steps++
	if ex.stats.Steps&0x3ff == 0 && !ex.stopAll {
		if !ex.deadline.IsZero() && time.Now().After(ex.deadline) {
			ex.incomplete["deadline"]++
			ex.stopAll = true
		}
		switch allStop.Load() {
		case stopMemory:
			ex.incomplete["memory"]++
			ex.stopAll = true
		case stopFound:
			ex.stopAll = true
		}
	}
	return ex.stopAll
}

const allocBound = "allocation larger than 1M elements"

// advance executes one instruction (or a merged call / region).
func (ex *Exec) advance(st *State, stop *Stop) (next *State, more []*State) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case forkSignal:
				next, more = nil, x.sts
			case killPath:
				if x.why != "infeasible" && x.why != "assume" {
					ex.incomplete[x.why]++
					if strings.Contains(x.why, "bound: ") && ex.initing == 0 {
						ex.report(st, "hang", "the call doesn't return ("+x.why+")", nil)
					}
					if x.why == allocBound && ex.initing == 0 {
						// what follows isn't explored; the real code tells what becomes of it
						ex.report(st, "hang", "more memory is asked for than any input needs", nil)
					}
				}
				ex.stats.Paths++
				next, more = nil, nil
			case goPanic:
				next, more = ex.startPanic(st, x.v), nil
			case unsupported:
				where := string(x)
				if g := st.g(); len(g.frames) > 0 {
					where += " @ " + st.top().fn.String()
					if ex.trace {
						fmt.Fprintln(os.Stderr, "UNSUPPORTED", where, ex.stack(st))
					}
				}
				ex.incomplete["unsupported: "+where]++
				next, more = nil, nil
			default:
				if ex.trace {
					debug.PrintStack()
				}
				where := fmt.Sprint(r)
				if g := st.g(); len(g.frames) > 0 {
					where += " @ " + st.top().fn.String() + " " + ex.curInstr(st)
				}
				ex.incomplete["engine: "+where]++
				if ex.trace {
					fmt.Fprintln(os.Stderr, "ENGINE ERROR", where, ex.stack(st))
				}
				next, more = nil, nil
			}
		}
	}()
	g := st.g()
	if g.done || len(g.frames) == 0 {
		return ex.schedule(st)
	}
	if g.blocked != nil {
		if !g.blocked(ex, st) {
			return ex.schedule(st)
		}
		g.blocked = nil
	}
	f := g.top()
	if f.unwound {
		ex.continueUnwind(st)
		return st, nil
	}
	if f.idx >= len(f.block.Instrs) {
		panic(unsupported("fell off block"))
	}
	in := f.block.Instrs[f.idx]
	f.info.steps++
	depth := len(g.frames)
	merging := !ex.noMerge && len(st.gs) == 1 && ex.initing == 0
	switch x := in.(type) {
	case *ssa.If:
		cond := ex.get(st, f, x.Cond).(*T)
		if cond.isBoolConst() {
			ex.jump(st, f, f.block.Succs[b2i(cond.op == OFalse)])
			return st, nil
		}
		a, b := ex.split(st, cond)
		if b == nil && a == nil {
			return nil, nil
		}
		if b == nil {
			ex.jump(a, a.top(), f.block.Succs[0])
			return a, nil
		}
		if a == nil {
			ex.jump(b, b.top(), f.block.Succs[1])
			return b, nil
		}
		base := st.pc
		start := st.nextObj
		blk := f.block
		ex.jump(a, a.top(), blk.Succs[0])
		ex.jump(b, b.top(), blk.Succs[1])
		j := f.info.ipdom[blk.Index]
		if !merging || j < 0 {
			return a, []*State{b}
		}
		sub := &Stop{g: st.cur, depth: depth, block: f.fn.Blocks[j]}
		if stop != nil && stop.g == sub.g && stop.depth == sub.depth && stop.block == sub.block {
			// the enclosing region joins at the same point
			return a, []*State{b}
		}
		if a.top().block == sub.block || b.top().block == sub.block {
			// fallthrough to the generic handling
		}
		res := ex.run([]*State{b, a}, sub)
		res = ex.mergeAll(res, base, start)
		if len(res) == 0 {
			return nil, nil
		}
		return res[0], res[1:]
	}
	ex.step(st, f, in)
	if merging && len(g.frames) == depth+1 {
		if _, isCall := in.(*ssa.Call); isCall && len(st.gs) == 1 {
			nf := g.top()
			if len(nf.info.fn.Blocks) > 1 || nf.info.user {
				base := st.pc
				start := st.nextObj
				sub := &Stop{g: st.cur, depth: depth + 1}
				res := ex.run([]*State{st}, sub)
				if len(res) == 1 {
					return res[0], nil
				}
				res = ex.mergeAll(res, base, start)
				if len(res) == 0 {
					return nil, nil
				}
				return res[0], res[1:]
			}
		}
	}
	return st, nil
}

func (t *T) isBoolConst() bool { return t.op == OTrue || t.op == OFalse }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (ex *Exec) curInstr(st *State) string {
	f := st.top()
	if f.idx < len(f.block.Instrs) {
		in := f.block.Instrs[f.idx]
		return fmt.Sprintf("%v (%s)", in, ex.w.prog.Fset.Position(in.Pos()))
	}
	return ""
}

func (ex *Exec) stack(st *State) []string {
	var out []string
	g := st.g()
	for i := len(g.frames) - 1; i >= 0 && len(out) < 14; i-- {
		f := g.frames[i]
		pos := ""
		if f.idx < len(f.block.Instrs) {
			for k := f.idx; k >= 0; k-- {
				if p := f.block.Instrs[k].Pos(); p.IsValid() {
					q := ex.w.prog.Fset.Position(p)
					pos = fmt.Sprintf("%s:%d", q.Filename, q.Line)
					break
				}
			}
		}
		out = append(out, f.fn.String()+" "+pos)
	}
	return out
}

func (ex *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.block
	if to.Index <= from.Index {
		if f.loops == nil {
			f.loops = map[*ssa.BasicBlock]int{}
		}
		f.loops[to]++
		if f.loops[to] > ex.maxVisits {
			panic(killPath{"unwinding bound: " + f.fn.String()})
		}
	}
	n := f.info.phis[to.Index]
	if n > 0 {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = ex.get(st, f, to.Instrs[i].(*ssa.Phi).Edges[pi])
		}
		for i := 0; i < n; i++ {
			f.regs[f.info.idx[to.Instrs[i].(*ssa.Phi)]] = vals[i]
		}
	}
	f.prev = from
	f.block = to
	f.idx = n
	ex.stats.Transitions++
}

func (ex *Exec) get(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Global:
		return ex.globalPtr(st, x)
	case *ssa.Function:
		return Fn{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic(unsupported("no register for " + v.Name()))
	}
	return f.regs[i]
}

func (ex *Exec) set(f *Frame, v ssa.Value, val Value) {
	f.regs[f.info.idx[v]] = val
}

func (ex *Exec) constVal(k *ssa.Const) Value {
	if v, ok := ex.consts[k]; ok {
		return v
	}
	v := ex.mkConst(k)
	ex.consts[k] = v
	return v
}

func (ex *Exec) mkConst(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return ex.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if tp, ok2 := t.(*types.TypeParam); ok2 {
			panic(unsupported("const of type param " + tp.String()))
		}
		panic(unsupported("const of " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return ex.ctx.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(k.Value)}
		}
		return Str{s: string(rune(k.Int64()))}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return Flt{c: f}
	}
	if w, _ := intWidth(b); w > 0 {
		if u, exact := constant.Uint64Val(constant.ToInt(k.Value)); exact {
			return ex.ctx.Const(u, w)
		}
		i, _ := constant.Int64Val(constant.ToInt(k.Value))
		return ex.ctx.Const(uint64(i), w)
	}
	if b.Info()&types.IsComplex != 0 {
		return Opaque{"complex"}
	}
	panic(unsupported("const " + k.String()))
}

// globalPtr returns the address of a global, initialising its package first.
func (ex *Exec) globalPtr(st *State, g *ssa.Global) Value {
	id := ex.w.globals[g]
	if id == 0 {
		panic(unsupported("unknown global " + g.String()))
	}
	if g.Pkg != nil && ex.initing == 0 {
		ex.ensureInit(st, g.Pkg)
	}
	return Ptr{obj: id}
}

var initKey = "init:"

// ensureInit runs the package initialiser concretely inside st, once.
func (ex *Exec) ensureInit(st *State, p *ssa.Package) {
	key := initKey + p.Pkg.Path()
	if st.flags[key] {
		return
	}
	if st.flags == nil {
		st.flags = map[string]bool{}
	}
	st.flags[key] = true
	fn := p.Func("init")
	if fn == nil {
		return
	}
	ex.w.build(fn)
	if len(fn.Blocks) == 0 {
		return
	}
	if skipInit[p.Pkg.Path()] {
		return
	}
	ex.runInit(st, fn)
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "time": true, "reflect": true, "internal/cpu": true, "net": true, "crypto/rand": true, "log": true, "flag": true, "testing": true, "internal/godebug": true, "fmt": true, "unicode": true, "math/rand": true, "encoding/gob": true, "net/http": true, "internal/poll": true, "context": true, "sync": true, "internal/testlog": true}

// runInit executes fn to completion in st with lenient error handling.
func (ex *Exec) runInit(st *State, fn *ssa.Function) {
	ex.initing++
	savedStop := ex.stopAll
	defer func() { ex.initing-- }()
	saveG, saveCur := st.gs, st.cur
	st.gs = []*Gor{{id: 999}}
	st.cur = 0
	ex.pushFrame(st, fn, nil, nil, nil)
	st.top().noRet = true
	n := 0
	for len(st.gs[0].frames) > 0 {
		n++
		if n > 3000000 {
			ex.incomplete["init too long: "+fn.String()]++
			break
		}
		if !ex.initStep(st) {
			ex.incomplete["init aborted: "+fn.String()]++
			break
		}
	}
	ex.stopAll = savedStop
	st.gs, st.cur = saveG, saveCur
}

func (ex *Exec) initStep(st *State) (ok bool) {
	g := st.gs[0]
	f := g.top()
	in := f.block.Instrs[f.idx]
	defer func() {
		if r := recover(); r != nil {
			if ex.trace {
				fmt.Fprintln(os.Stderr, "init issue:", r, f.fn, in)
			}
			// lenient: unwind to the init function, poison the value and continue
			for len(g.frames) > 1 {
				g.frames = g.frames[:len(g.frames)-1]
			}
			f0 := g.top()
			in0 := f0.block.Instrs[f0.idx]
			if len(g.frames) == 1 && f0 != f {
				// the call instruction already advanced idx? calls advance on return
			}
			if v, isv := in0.(ssa.Value); isv {
				ex.set(f0, v, Opaque{"init of " + f0.fn.Pkg.Pkg.Path()})
			}
			switch in0.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				ok = false
				return
			}
			f0.idx++
			ok = true
		}
	}()
	if x, isIf := in.(*ssa.If); isIf {
		cond, isT := ex.get(st, f, x.Cond).(*T)
		if !isT || !cond.isBoolConst() {
			return false
		}
		ex.jump(st, f, f.block.Succs[b2i(cond.op == OFalse)])
		return true
	}
	ex.step(st, f, in)
	return true
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args []Value, bind []Value, dest ssa.Value) *Frame {
	fi := ex.info(fn)
	if len(fn.Blocks) == 0 {
		panic(unsupported("external function " + fn.String()))
	}
	if len(st.g().frames) > 400 {
		panic(killPath{"recursion bound: " + fn.String()})
	}
	f := &Frame{fn: fn, info: fi, block: fn.Blocks[0], regs: make([]Value, fi.nreg), bind: bind, dest: dest}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity %s: %d args %d params", fn, len(args), len(fn.Params))))
	}
	copy(f.regs, args)
	for i, b := range bind {
		f.regs[len(fn.Params)+i] = b
	}
	g := st.g()
	g.frames = append(g.frames, f)
	ex.funcs[fi.name]++
	ex.stats.Calls++
	return f
}

// call performs a call; dest register gets the result (advance happens here).
func (ex *Exec) call(st *State, f *Frame, fv Value, call *ssa.CallCommon, args []Value, dest ssa.Value) {
	switch fn := fv.(type) {
	case *ssa.Builtin:
		r := ex.builtin(st, fn, call, args)
		if dest != nil {
			ex.set(f, dest, r)
		}
		f.idx++
		return
	case Fn:
		if fn.fn == nil {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		target := fn.fn
		fi := ex.info(target)
		if s := ex.stubs[fi.name]; s != nil {
			ex.synced(st, fi.name, args, nil)
			target = s
			fi = ex.info(target)
		}
		if fi.intr != nil {
			ex.stats.Calls++
			r := fi.intr(ex, st, call, target, args)
			ex.synced(st, fi.name, args, r)
			handled := true
			switch b := r.(type) {
			case pushedFrame:
				f.idx++
				return
			case blockOn:
				ex.wait(st, b.ready)
				return
			case notHandled:
				handled = false
			}
			if handled {
				if dest != nil {
					ex.set(f, dest, r)
				}
				f.idx++
				return
			}
		}
		if ex.initing > 0 && (target.Name() == "init" || strings.HasPrefix(target.Name(), "init#")) && target.Pkg != f.fn.Pkg {
			f.idx++ // imported packages initialise on demand
			return
		}
		ex.pushFrame(st, target, args, fn.bind, dest)
		f.idx++
		return
	case nil:
		panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

// resolve evaluates callee and arguments
func (ex *Exec) resolve(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := ex.get(st, f, c.Value)
		i, ok := recv.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", recv)))
		}
		if i.t == nil {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		ex.w.mu.Lock()
		m := ex.w.prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
		ex.w.mu.Unlock()
		if m == nil {
			panic(unsupported("method not found " + c.Method.Name() + " on " + i.t.String()))
		}
		args = append(args, i.v)
		for _, a := range c.Args {
			args = append(args, ex.get(st, f, a))
		}
		return Fn{fn: m}, args
	}
	fv := ex.get(st, f, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.get(st, f, a))
	}
	return fv, args
}

func (ex *Exec) ret(st *State, val Value) {
	g := st.g()
	f := g.top()
	g.frames = g.frames[:len(g.frames)-1]
	if f.onRet != nil {
		f.onRet(ex, st, val)
	}
	if len(g.frames) == 0 {
		ex.goroutineDone(st)
		return
	}
	if f.isDefer {
		return // continues in the frame below (RunDefers or unwinding)
	}
	if f.dest != nil && !f.noRet {
		ex.set(g.top(), f.dest, val)
	}
}

func (ex *Exec) goroutineDone(st *State) {
	st.g().done = true
}

// schedule picks the next runnable goroutine.
func (ex *Exec) schedule(st *State) (*State, []*State) {
	if st.gs[0].done {
		ex.endPath(st, "ok")
		return nil, nil
	}
	var ready []int
	settler := -1
	for i, g := range st.gs {
		if g.done {
			continue
		}
		if g.settle && g.blocked != nil {
			settler = i
			continue
		}
		if g.blocked == nil || g.blocked(ex, st) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 && settler >= 0 {
		ready = append(ready, settler)
	}
	if len(ready) == 0 {
		if ex.advanceClock(st) {
			return st, nil
		}
		ex.deadlock(st)
		return nil, nil
	}
	// round robin from the next index
	pick := ready[0]
	for _, i := range ready {
		if i > st.cur {
			pick = i
			break
		}
	}
	if ex.sched && len(ready) > 1 && st.devs < ex.maxDev {
		var sts []*State
		for _, i := range ready {
			if i == pick {
				continue
			}
			n := st.clone()
			n.cur = i
			n.gs[i].blocked = nil
			n.devs++
			n.turns = &Turn{n.turns, fmt.Sprintf("step %d: goroutine %d (%s) runs instead of %d", n.steps, i, where(n.gs[i]), pick)}
			sts = append(sts, n)
		}
		st.cur = pick
		st.gs[pick].blocked = nil
		ex.stats.Forks += int64(len(sts))
		return st, sts
	}
	st.cur = pick
	st.gs[pick].blocked = nil
	if pick == 0 {
		st.advances = 0
	}
	return st, nil
}

func (ex *Exec) deadlock(st *State) {
	ex.report(st, "deadlock", "all goroutines are asleep: the call never returns", nil)
	ex.stats.Paths++
}

func (ex *Exec) model(st *State) *evaluator {
	if st.ev != nil {
		return st.ev
	}
	r, m := ex.sol.Check(st.lits(), ex.aTimeout)
	if r == Sat {
		st.ev = newEval(m)
		return st.ev
	}
	return nil
}

func (ex *Exec) inputs(st *State, ev *evaluator) []InputVal {
	var out []InputVal
	for d := st.nd; d != nil; d = d.parent {
		if strings.HasPrefix(d.kind, "env:") {
			continue
		}
		v := d.c
		if d.t != nil {
			v = ev.eval(d.t)
		}
		out = append(out, InputVal{d.kind, v})
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (ex *Exec) endPath(st *State, end string) {
	ex.stats.Paths++
	ex.stats.States++
	ex.nw++
	take := len(ex.witnesses) < ex.maxWit
	if !take && ex.nw&(ex.nw-1) == 0 && len(ex.witnesses) < 3*ex.maxWit {
		take = true
	}
	if take {
		ev := ex.model(st)
		if ev == nil {
			return
		}
		w := &Witness{Inputs: ex.inputs(st, ev), End: end}
		n := 0
		if st.obs != nil {
			n = st.obs.depth
		}
		w.Obs = make([]string, n)
		for o := st.obs; o != nil; o = o.parent {
			w.Obs[o.depth-1] = o.label + "=" + ex.render(ev, o.v)
		}
		ex.witnesses = append(ex.witnesses, w)
	}
}

// render prints a value under a model, in the same format as the native runtime.
func (ex *Exec) render(ev *evaluator, v Value) string {
	switch x := v.(type) {
	case *T:
		if x.w == 0 {
			return fmt.Sprint(ev.eval(x) == 1)
		}
		return fmt.Sprint(ev.eval(x))
	case Str:
		if x.t == nil {
			return fmt.Sprintf("%q", x.s)
		}
		b := make([]byte, len(x.t))
		for i, t := range x.t {
			b[i] = byte(ev.eval(t))
		}
		return fmt.Sprintf("%q", string(b))
	}
	return fmt.Sprintf("?%T", v)
}

func where(g *Gor) string {
	if len(g.frames) == 0 {
		return "?"
	}
	return g.top().fn.String()
}

func (ex *Exec) report(st *State, kind, msg string, ev *evaluator) {
	if ev == nil {
		ev = ex.model(st)
	}
	if ev == nil {
		r, _ := ex.sol.Check(st.lits(), ex.aTimeout)
		if r != Unsat {
			ex.incomplete["violation candidate without a model: "+msg]++
		}
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Inputs: ex.inputs(st, ev), Harness: ex.harness, Case: ex.caseNo}
	if len(st.gs) > 0 && len(st.g().frames) > 0 {
		v.Trace = ex.stack(st)
	}
	for t := st.turns; t != nil; t = t.parent {
		v.Turns = append([]string{t.what}, v.Turns...)
	}
	key := kind + msg
	ex.violKeys[key]++
	if ex.violKeys[key] > 3 {
		return
	}
	ex.viol = append(ex.viol, v)
	if ex.onViol != nil && ex.onViol(v) {
		ex.stopAll = true
	}
}

// ---------- panics ----------

func (ex *Exec) runtimeErr(st *State, msg string) Value {
	return Iface{t: ex.w.runtimeErrorType(), v: Str{s: msg}}
}

// startPanic begins unwinding the current goroutine with value v.
func (ex *Exec) startPanic(st *State, v Value) *State {
	g := st.g()
	if len(g.frames) == 0 {
		return nil
	}
	f := g.top()
	pv := v
	f.panicV = &pv
	f.recov = false
	f.unwound = true
	f.retVal = Tup{Str{s: fmt.Sprint(ex.stack(st))}}
	return st
}

// continueUnwind runs the next deferred call of a panicking frame or pops it.
func (ex *Exec) continueUnwind(st *State) {
	g := st.g()
	f := g.top()
	if f.recov {
		// run the remaining defers normally, then return through the recover block
		if len(f.defers) > 0 {
			ex.runDefer(st, f, true)
			return
		}
		f.unwound = false
		f.panicV = nil
		if f.fn.Recover != nil {
			f.block = f.fn.Recover
			f.idx = 0
			return
		}
		// results are zero values
		sig := f.fn.Signature
		ex.ret(st, ex.zeroResult(sig))
		return
	}
	if len(f.defers) > 0 {
		ex.runDefer(st, f, true)
		return
	}
	v := *f.panicV
	tr := f.retVal
	if len(g.frames) == 1 {
		msg := "panic: " + ex.panicText(st, v)
		if t, ok := tr.(Tup); ok && len(t) == 1 {
			if s, ok := t[0].(Str); ok {
				ex.lastPos = s.s
			}
		}
		if ex.panicAllowed(v) {
			ex.stats.Paths++
		} else {
			ex.stats.Paths++
			ex.report(st, "panic", msg, nil)
		}
		panic(killPath{"infeasible"})
	}
	// a deferred function that panics replaces the panic of the frame below
	g.frames = g.frames[:len(g.frames)-1]
	nf := g.top()
	pv := v
	nf.panicV = &pv
	nf.recov = false
	nf.unwound = true
	nf.retVal = tr
}

func (ex *Exec) panicAllowed(v Value) bool { return false }

func (ex *Exec) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return ex.zero(sig.Results().At(0).Type())
	}
	return ex.zero(sig.Results())
}

func (ex *Exec) panicText(st *State, v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		switch x := i.v.(type) {
		case Str:
			if x.t == nil {
				return x.s
			}
			return ex.show(x)
		case Agg:
			if len(x) == 1 {
				if s, ok := x[0].(Str); ok && s.t == nil {
					return s.s
				}
			}
		}
		return i.t.String()
	}
	return ex.show(v)
}

func (ex *Exec) runDefer(st *State, f *Frame, unwinding bool) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	switch fn := d.fn.(type) {
	case *ssa.Builtin:
		ex.builtin(st, fn, d.call, d.args)
		return
	case Fn:
		fi := ex.info(fn.fn)
		if fi.intr != nil {
			r := fi.intr(ex, st, d.call, fn.fn, d.args)
			ex.synced(st, fi.name, d.args, r)
			switch b := r.(type) {
			case blockOn:
				f.defers = append(f.defers, d)
				ex.wait(st, b.ready)
				return
			case notHandled:
			case pushedFrame:
				panic(unsupported("deferred intrinsic with a frame: " + fi.name))
			default:
				return
			}
		}
		nf := ex.pushFrame(st, fn.fn, d.args, fn.bind, nil)
		nf.isDefer = true
		nf.inPanic = unwinding
		return
	}
	panic(unsupported("defer"))
}

// ---------- instructions ----------

func (ex *Exec) step(st *State, f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Jump:
		ex.jump(st, f, f.block.Succs[0])
	case *ssa.Return:
		var val Value
		switch len(x.Results) {
		case 0:
		case 1:
			val = ex.get(st, f, x.Results[0])
		default:
			t := make(Tup, len(x.Results))
			for i, r := range x.Results {
				t[i] = ex.get(st, f, r)
			}
			val = t
		}
		ex.ret(st, val)
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		id := st.alloc(ex.zeroSlots(et), et)
		ex.set(f, x, Ptr{obj: id})
		f.idx++
	case *ssa.Store:
		p, ok := ex.get(st, f, x.Addr).(Ptr)
		if !ok {
			panic(unsupported("store through symbolic pointer"))
		}
		if st.race {
			ex.access(st, p.obj, p.off, ex.lay.sizeof(x.Val.Type()), true)
		}
		ex.store(st, p, x.Val.Type(), ex.get(st, f, x.Val))
		f.idx++
	case *ssa.UnOp:
		ex.unop(st, f, x)
	case *ssa.BinOp:
		a, b := ex.get(st, f, x.X), ex.get(st, f, x.Y)
		r := ex.binop(st, x.Op, x.X.Type(), x.Y.Type(), a, b)
		ex.set(f, x, r)
		f.idx++
	case *ssa.Call:
		fv, args := ex.resolve(st, f, &x.Call)
		ex.call(st, f, fv, &x.Call, args, x)
	case *ssa.Go:
		fv, args := ex.resolve(st, f, &x.Call)
		f.idx++
		fn, ok := fv.(Fn)
		if !ok || fn.fn == nil {
			panic(unsupported("go of builtin"))
		}
		target := fn.fn
		fi := ex.info(target)
		if s := ex.stubs[fi.name]; s != nil {
			target = s
			fi = ex.info(target)
		}
		ng := &Gor{id: len(st.gs)}
		if st.race {
			ng.vc = st.release().with(ng.id, 1)
		}
		saved := st.cur
		st.gs = append(st.gs, ng)
		st.cur = len(st.gs) - 1
		if fi.intr != nil {
			fi.intr(ex, st, &x.Call, target, args)
			ng.done = true
		} else {
			ex.pushFrame(st, target, args, fn.bind, nil)
		}
		st.cur = saved
	case *ssa.Defer:
		fv, args := ex.resolve(st, f, &x.Call)
		f.defers = append(f.defers, deferred{fv, &x.Call, args})
		f.idx++
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			ex.runDefer(st, f, false)
			return // re-executed until no defers are left
		}
		f.idx++
	case *ssa.Panic:
		panic(goPanic{ex.get(st, f, x.X)})
	case *ssa.Extract:
		t, ok := ex.get(st, f, x.Tuple).(Tup)
		if !ok {
			v := ex.get(st, f, x.Tuple)
			if o, isO := v.(Opaque); isO {
				ex.set(f, x, o)
				f.idx++
				return
			}
			panic(unsupported(fmt.Sprintf("extract from %T", v)))
		}
		ex.set(f, x, t[x.Index])
		f.idx++
	case *ssa.FieldAddr:
		p, ok := ex.get(st, f, x.X).(Ptr)
		if !ok {
			panic(unsupported("field of symbolic pointer"))
		}
		if p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		ex.set(f, x, Ptr{p.obj, p.off + ex.lay.fieldOff(s, x.Field)})
		f.idx++
	case *ssa.Field:
		v := ex.get(st, f, x.X)
		a, ok := v.(Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T", v)))
		}
		s := x.X.Type().Underlying().(*types.Struct)
		off := ex.lay.fieldOff(s, x.Field)
		ft := s.Field(x.Field).Type()
		if isAgg(ft) {
			ex.set(f, x, Agg(append([]Value(nil), a[off:off+ex.lay.sizeof(ft)]...)))
		} else {
			ex.set(f, x, a[off])
		}
		f.idx++
	case *ssa.IndexAddr:
		ex.indexAddr(st, f, x)
	case *ssa.Index:
		ex.index(st, f, x)
	case *ssa.Lookup:
		ex.lookup(st, f, x)
	case *ssa.MapUpdate:
		m := ex.get(st, f, x.Map).(MapV)
		ex.access(st, m.obj, mapSlot, 1, true)
		ex.mapUpdate(st, m, ex.get(st, f, x.Key), ex.get(st, f, x.Value), x.Map.Type().Underlying().(*types.Map))
		f.idx++
	case *ssa.MakeMap:
		id := st.alloc(nil, x.Type())
		st.heap.mut(id).m = &MapData{idx: map[string]int{}}
		ex.set(f, x, MapV{id})
		f.idx++
	case *ssa.MakeSlice:
		n := ex.concInt(st, ex.asInt64(ex.get(st, f, x.Len), x.Len.Type()))
		c := ex.concInt(st, ex.asInt64(ex.get(st, f, x.Cap), x.Cap.Type()))
		if n < 0 {
			panic(goPanic{ex.runtimeErr(st, "makeslice: len out of range")})
		}
		if c < n {
			panic(goPanic{ex.runtimeErr(st, "makeslice: cap out of range")})
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		if c*ex.lay.sizeof(et) > 1<<20 {
			panic(killPath{allocBound})
		}
		ex.set(f, x, ex.makeSlice(st, et, n, c))
		f.idx++
	case *ssa.MakeChan:
		n := ex.concInt(st, ex.get(st, f, x.Size))
		id := st.alloc(nil, x.Type())
		st.heap.mut(id).ch = &ChanData{cap: n}
		ex.set(f, x, ChanV{id})
		f.idx++
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, ex.get(st, f, v))
		}
		ex.set(f, x, Fn{fn: x.Fn.(*ssa.Function), bind: b})
		f.idx++
	case *ssa.MakeInterface:
		ex.set(f, x, Iface{t: x.X.Type(), v: ex.get(st, f, x.X)})
		f.idx++
	case *ssa.ChangeInterface:
		ex.set(f, x, ex.get(st, f, x.X))
		f.idx++
	case *ssa.ChangeType:
		ex.set(f, x, ex.get(st, f, x.X))
		f.idx++
	case *ssa.Convert:
		ex.set(f, x, ex.convert(st, x.X.Type(), x.Type(), ex.get(st, f, x.X)))
		f.idx++
	case *ssa.MultiConvert:
		ex.set(f, x, ex.convert(st, x.X.Type(), x.Type(), ex.get(st, f, x.X)))
		f.idx++
	case *ssa.SliceToArrayPointer:
		s := ex.get(st, f, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			panic(goPanic{ex.runtimeErr(st, "cannot convert slice to array pointer: length")})
		}
		ex.set(f, x, Ptr{s.obj, s.off})
		f.idx++
	case *ssa.Slice:
		ex.sliceOp(st, f, x)
	case *ssa.TypeAssert:
		ex.typeAssert(st, f, x)
	case *ssa.Range:
		ex.rangeOp(st, f, x)
	case *ssa.Next:
		ex.next(st, f, x)
	case *ssa.Send:
		ex.send(st, f, x)
	case *ssa.Select:
		ex.selectOp(st, f, x)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
}

func (ex *Exec) asInt64(v Value, t types.Type) Value {
	b := t.Underlying().(*types.Basic)
	w, s := intWidth(b)
	x := v.(*T)
	if w < 64 {
		if s {
			return ex.ctx.Sext(x, 64)
		}
		return ex.ctx.Zext(x, 64)
	}
	return x
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, c int) Slice {
	es := ex.lay.sizeof(et)
	var slots []Value
	if !isAgg(et) {
		z := ex.zero(et)
		slots = make([]Value, c)
		for i := range slots {
			slots[i] = z
		}
	} else {
		z := ex.zeroSlots(et)
		slots = make([]Value, 0, c*es)
		for i := 0; i < c; i++ {
			slots = append(slots, z...)
		}
	}
	id := st.alloc(slots, et)
	return Slice{obj: id, off: 0, len: n, cap: c, es: es}
}

func (ex *Exec) unop(st *State, f *Frame, x *ssa.UnOp) {
	v := ex.get(st, f, x.X)
	switch x.Op {
	case token.MUL:
		switch p := v.(type) {
		case Ptr:
			if st.race {
				ex.access(st, p.obj, p.off, ex.lay.sizeof(x.Type()), false)
			}
			ex.set(f, x, ex.load(st, p, x.Type()))
		case SymPtr:
			o := ex.obj(st, p.base.obj)
			r := ex.selectElem(st, p.idx, p.n, func(i int) Value {
				off := p.base.off + i*p.es
				if isAgg(x.Type()) {
					return Agg(o.slots[off : off+p.es])
				}
				return o.slots[off]
			})
			ex.set(f, x, r)
		case Opaque:
			panic(unsupported("load through opaque: " + p.why))
		default:
			panic(unsupported(fmt.Sprintf("load through %T", v)))
		}
	case token.NOT:
		ex.set(f, x, ex.ctx.Not(v.(*T)))
	case token.SUB:
		switch n := v.(type) {
		case *T:
			ex.set(f, x, ex.ctx.Neg(n))
		case Flt:
			if t, ok := ex.fltInt(n); ok && n.t != nil {
				ex.set(f, x, Flt{t: ex.ctx.Neg(t)})
			} else if n.sym() {
				panic(unsupported("negation of a symbolic float"))
			} else {
				ex.set(f, x, Flt{c: -n.c})
			}
		default:
			panic(unsupported("negation"))
		}
	case token.XOR:
		ex.set(f, x, ex.ctx.BvNot(v.(*T)))
	case token.ARROW:
		ex.recv(st, f, x, v.(ChanV))
		return
	default:
		panic(unsupported("unop " + x.Op.String()))
	}
	f.idx++
}

// selectElem builds the value of element idx out of n, forking when the
// elements cannot be expressed as one value.
func (ex *Exec) selectElem(st *State, idx *T, n int, at func(int) Value) Value {
	lo, hi := int(idx.lo), n-1
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	allT := true
	for i := lo; i <= hi; i++ {
		if _, ok := at(i).(*T); !ok {
			allT = false
			break
		}
	}
	if !allT || hi-lo > 300 {
		return at(int(ex.concretize(st, idx)))
	}
	// linear table: at(i) = at(lo) + (i-lo)
	first := at(lo).(*T)
	if first.isConst() && first.w > 0 {
		lin := true
		for i := lo; i <= hi; i++ {
			e := at(i).(*T)
			if !e.isConst() || e.c != first.c+uint64(i-lo) {
				lin = false
				break
			}
		}
		if lin && idx.lo >= uint64(lo) {
			d := ex.ctx.Add(ex.ctx.Zext(idx, 64), ex.ctx.Const(first.c-uint64(lo), 64))
			return ex.ctx.Extract(d, 0, first.w)
		}
	}
	r := at(hi).(*T)
	for i := hi - 1; i >= lo; i-- {
		r = ex.ctx.Ite(ex.ctx.Eq(idx, ex.ctx.Const(uint64(i), idx.w)), at(i).(*T), r)
	}
	return r
}

func (ex *Exec) boundsCheck(st *State, idx *T, n int) {
	ok := ex.ctx.Ult(idx, ex.ctx.Const(uint64(n), 64))
	if n == 0 {
		ok = ex.ctx.tFalse
	}
	if !ex.decide(st, ok) {
		m := "index out of range"
		if idx.isConst() {
			m = fmt.Sprintf("index out of range [%d] with length %d", int64(idx.c), n)
		} else {
			m = fmt.Sprintf("index out of range with length %d", n)
		}
		panic(goPanic{ex.runtimeErr(st, m)})
	}
}

func onlyLoaded(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (ex *Exec) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) {
	idx := ex.asInt64(ex.get(st, f, x.Index), x.Index.Type()).(*T)
	v := ex.get(st, f, x.X)
	var base Ptr
	var n, es int
	switch p := v.(type) {
	case Slice:
		base, n, es = Ptr{p.obj, p.off}, p.len, p.es
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		base, n, es = p, int(at.Len()), ex.lay.sizeof(at.Elem())
	default:
		panic(unsupported(fmt.Sprintf("index of %T", v)))
	}
	ex.boundsCheck(st, idx, n)
	if !idx.isConst() {
		if onlyLoaded(x) {
			ex.set(f, x, SymPtr{base, idx, n, es})
			f.idx++
			return
		}
	}
	i := int(ex.concretize(st, idx))
	ex.set(f, x, Ptr{base.obj, base.off + i*es})
	f.idx++
}

func (ex *Exec) index(st *State, f *Frame, x *ssa.Index) {
	idx := ex.asInt64(ex.get(st, f, x.Index), x.Index.Type()).(*T)
	v := ex.get(st, f, x.X)
	switch a := v.(type) {
	case Str:
		ex.boundsCheck(st, idx, a.length())
		ex.set(f, x, ex.strIndex(st, a, idx))
	case Agg:
		at := x.X.Type().Underlying().(*types.Array)
		es := ex.lay.sizeof(at.Elem())
		ex.boundsCheck(st, idx, int(at.Len()))
		ex.set(f, x, ex.selectElem(st, idx, int(at.Len()), func(i int) Value {
			if isAgg(at.Elem()) {
				return Agg(a[i*es : i*es+es])
			}
			return a[i]
		}))
	default:
		panic(unsupported(fmt.Sprintf("index of %T", v)))
	}
	f.idx++
}

func (ex *Exec) sliceOp(st *State, f *Frame, x *ssa.Slice) {
	v := ex.get(st, f, x.X)
	opt := func(o ssa.Value, def int) int {
		if o == nil {
			return def
		}
		return ex.concInt(st, ex.asInt64(ex.get(st, f, o), o.Type()))
	}
	bad := func(lo, hi, mx int) {
		panic(goPanic{ex.runtimeErr(st, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, mx))})
	}
	switch a := v.(type) {
	case Str:
		lo := opt(x.Low, 0)
		hi := opt(x.High, a.length())
		if lo < 0 || hi < lo || hi > a.length() {
			bad(lo, hi, a.length())
		}
		ex.set(f, x, ex.substr(a, lo, hi))
	case Slice:
		lo := opt(x.Low, 0)
		hi := opt(x.High, a.len)
		mx := opt(x.Max, a.cap)
		if lo < 0 || hi < lo || mx < hi || mx > a.cap {
			bad(lo, hi, a.cap)
		}
		if a.obj == 0 {
			ex.set(f, x, a)
		} else {
			ex.set(f, x, Slice{a.obj, a.off + lo*a.es, hi - lo, mx - lo, a.es})
		}
	case Ptr:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if a.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		n := int(at.Len())
		es := ex.lay.sizeof(at.Elem())
		lo := opt(x.Low, 0)
		hi := opt(x.High, n)
		mx := opt(x.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			bad(lo, hi, n)
		}
		ex.set(f, x, Slice{a.obj, a.off + lo*es, hi - lo, mx - lo, es})
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", v)))
	}
	f.idx++
}

func (ex *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) {
	v := ex.get(st, f, x.X)
	i, ok := v.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("type assert on %T", v)))
	}
	good := false
	var res Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		good = i.t != nil && types.Implements(i.t, it)
		res = i
		if !good {
			res = Iface{}
		}
	} else {
		good = i.t != nil && types.Identical(i.t, x.AssertedType)
		if good {
			res = i.v
		} else if x.CommaOk {
			res = ex.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		ex.set(f, x, Tup{res, ex.ctx.Bool(good)})
	} else {
		if !good {
			panic(goPanic{ex.runtimeErr(st, fmt.Sprintf("interface conversion: %v is not %v", i.t, x.AssertedType))})
		}
		ex.set(f, x, res)
	}
	f.idx++
}

// ---------- operators ----------

func (ex *Exec) binop(st *State, op token.Token, tx, ty types.Type, a, b Value) Value {
	c := ex.ctx
	switch op {
	case token.EQL:
		return ex.eq(st, a, b, tx)
	case token.NEQ:
		return c.Not(ex.eq(st, a, b, tx))
	}
	switch x := a.(type) {
	case *T:
		y, ok := b.(*T)
		if !ok {
			panic(unsupported(fmt.Sprintf("binop %v on %T", op, b)))
		}
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.BAnd(x, y)
			case token.OR, token.LOR:
				return c.BOr(x, y)
			}
			panic(unsupported("bool binop"))
		}
		bt := tx.Underlying().(*types.Basic)
		_, signed := intWidth(bt)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			if ex.decide(st, c.Eq(y, c.Const(0, y.w))) {
				panic(goPanic{ex.runtimeErr(st, "integer divide by zero")})
			}
			if op == token.QUO {
				if signed {
					return c.SDiv(x, y)
				}
				return c.UDiv(x, y)
			}
			if signed {
				return c.SRem(x, y)
			}
			return c.URem(x, y)
		case token.AND:
			return c.And2(x, y)
		case token.OR:
			return c.Or2(x, y)
		case token.XOR:
			return c.Xor2(x, y)
		case token.AND_NOT:
			return c.And2(x, c.BvNot(y))
		case token.SHL, token.SHR:
			yb := ty.Underlying().(*types.Basic)
			if _, ys := intWidth(yb); ys {
				if ex.decide(st, c.Slt(y, c.Const(0, y.w))) {
					panic(goPanic{ex.runtimeErr(st, "negative shift amount")})
				}
			}
			if op == token.SHL {
				return c.Shl(x, y)
			}
			if signed {
				return c.Ashr(x, y)
			}
			return c.Lshr(x, y)
		case token.LSS:
			if signed {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.GTR:
			if signed {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.LEQ:
			if signed {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GEQ:
			if signed {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	case Str:
		y := b.(Str)
		switch op {
		case token.ADD:
			return ex.concat(x, y)
		case token.LSS:
			return ex.strLess(x, y)
		case token.GTR:
			return ex.strLess(y, x)
		case token.LEQ:
			return c.Not(ex.strLess(y, x))
		case token.GEQ:
			return c.Not(ex.strLess(x, y))
		}
	case Flt:
		return ex.fltop(st, op, x, b.(Flt))
	case Opaque:
		panic(unsupported("operation on opaque value: " + x.why))
	}
	panic(unsupported(fmt.Sprintf("binop %v on %T", op, a)))
}

func (ex *Exec) fltInt(f Flt) (*T, bool) {
	if f.d != 0 || f.q != nil || f.e != nil {
		return nil, false
	}
	if f.t != nil {
		return f.t, true
	}
	if f.c == math.Trunc(f.c) && math.Abs(f.c) < 1<<53 {
		return ex.ctx.Const(uint64(int64(f.c)), 64), true
	}
	return nil, false
}

// fltFrac: numerator and denominator, not negative and below 2^52.
func (ex *Exec) fltFrac(f Flt) ([2]*T, bool) {
	if f.q != nil {
		return [2]*T{f.t, f.q}, true
	}
	if f.d != 0 && f.t.hi < 1<<52 {
		return [2]*T{f.t, ex.ctx.Const(f.d, 64)}, true
	}
	if f.t == nil && f.cd != 0 {
		return [2]*T{ex.ctx.Const(f.cn, 64), ex.ctx.Const(f.cd, 64)}, true
	}
	t, ok := ex.fltInt(f)
	if !ok || t.hi >= 1<<52 {
		return [2]*T{}, false
	}
	return [2]*T{t, ex.ctx.Const(1, 64)}, true
}

// fltRat: numerator and denominator of f, both not negative, if nothing were rounded.
func (ex *Exec) fltRat(f Flt) (r [2]*T, ok bool) {
	if f.e == nil {
		r, ok = ex.fltFrac(f)
		return r, ok && r[0].hi < 1<<52
	}
	x, ok1 := ex.fltRat(f.e.x)
	y, ok2 := ex.fltRat(f.e.y)
	if !ok1 || !ok2 {
		return r, false
	}
	mul := func(a, b *T) *T {
		if a == nil || b == nil {
			return nil
		}
		if h, l := bits.Mul64(a.hi, b.hi); h != 0 || l >= 1<<62 {
			return nil
		}
		return ex.ctx.Mul(a, b)
	}
	switch f.e.op {
	case token.MUL:
		r = [2]*T{mul(x[0], y[0]), mul(x[1], y[1])}
	case token.QUO:
		r = [2]*T{mul(x[0], y[1]), mul(x[1], y[0])}
	case token.ADD:
		a, b := mul(x[0], y[1]), mul(y[0], x[1])
		if a == nil || b == nil {
			return r, false
		}
		r = [2]*T{ex.ctx.Add(a, b), mul(x[1], y[1])}
	}
	return r, r[0] != nil && r[1] != nil
}

// cross multiplies the fractions p and q. The products are below 2^52, so that
// distinct fractions have distinct roundings.
func (ex *Exec) cross(p, q [2]*T) (l, r *T, ok bool) {
	for i := 0; i < 2; i++ {
		if p[i] == nil || q[i] == nil {
			return nil, nil, false
		}
	}
	for _, m := range [][2]*T{{p[0], q[1]}, {q[0], p[1]}} {
		if h, l := bits.Mul64(m[0].hi, m[1].hi); h != 0 || l >= 1<<52 {
			return nil, nil, false
		}
	}
	return ex.ctx.Mul(p[0], q[1]), ex.ctx.Mul(q[0], p[1]), true
}

func cmpFlt(op token.Token, x, y float64) bool {
	switch op {
	case token.LSS:
		return x < y
	case token.GTR:
		return x > y
	case token.LEQ:
		return x <= y
	case token.GEQ:
		return x >= y
	}
	return x == y
}

// fltPin is the value of f on this path, which is narrowed to one value of its terms.
func (ex *Exec) fltPin(st *State, f Flt) float64 {
	return fltAt(f, func(t *T) uint64 {
		if t.isConst() {
			return t.c
		}
		for k := st.known; k != nil; k = k.parent {
			if k.t == t {
				return k.v
			}
		}
		// rather not a value for which much is the same
		for _, c := range []*T{ex.ctx.Ult(ex.ctx.Const(2, t.w), t), ex.ctx.Ult(ex.ctx.Const(0, t.w), t), ex.ctx.tTrue} {
			if r, ev := ex.sat(st, c, ex.qTimeout); r == Sat && ev != nil {
				v := ev.eval(t)
				st.addPC(ex.ctx.Eq(t, ex.ctx.Const(v, t.w)))
				st.ev = ev
				st.known = &Known{t, v, st.known}
				ex.incomplete["float compared for one value only"]++
				return v
			}
		}
		panic(killPath{"infeasible"})
	})
}

func (ex *Exec) fltop(st *State, op token.Token, x, y Flt) Value {
	c := ex.ctx
	if !x.sym() && !y.sym() {
		switch op {
		case token.ADD:
			return Flt{c: x.c + y.c}
		case token.SUB:
			return Flt{c: x.c - y.c}
		case token.MUL:
			return Flt{c: x.c * y.c}
		case token.QUO:
			r := Flt{c: x.c / y.c}
			if x.c >= 0 && x.c < 1<<52 && y.c > 0 && y.c < 1<<52 && x.c == math.Trunc(x.c) && y.c == math.Trunc(y.c) {
				r.cn, r.cd = uint64(x.c), uint64(y.c)
			}
			return r
		case token.LSS:
			return c.Bool(x.c < y.c)
		case token.GTR:
			return c.Bool(x.c > y.c)
		case token.LEQ:
			return c.Bool(x.c <= y.c)
		case token.GEQ:
			return c.Bool(x.c >= y.c)
		}
	}
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if x.e != nil || y.e != nil {
			return c.Bool(cmpFlt(op, ex.fltPin(st, x), ex.fltPin(st, y)))
		}
	default:
		if x.e != nil || y.e != nil || x.q != nil || y.q != nil || x.d != 0 || y.d != 0 {
			return Flt{e: &FltExpr{op, x, y}}
		}
	}
	if x.q != nil || y.q != nil {
		for _, f := range []struct {
			v    Flt
			left bool
		}{{x, true}, {y, false}} {
			if f.v.t == nil && math.IsInf(f.v.c, 1) {
				less := op == token.LSS || op == token.LEQ // the finite one is on the other side
				return c.Bool(less != f.left)
			}
			if f.v.t == nil && math.IsNaN(f.v.c) {
				return c.tFalse
			}
		}
		p, ok1 := ex.fltFrac(x)
		q, ok2 := ex.fltFrac(y)
		if l, r, ok := ex.cross(p, q); ok1 && ok2 && ok {
			switch op {
			case token.LSS:
				return c.Ult(l, r)
			case token.GTR:
				return c.Ult(r, l)
			case token.LEQ:
				return c.Ule(l, r)
			case token.GEQ:
				return c.Ule(r, l)
			}
		}
		panic(unsupported("arithmetic on a symbolic quotient"))
	}
	a, ok1 := ex.fltInt(x)
	b, ok2 := ex.fltInt(y)
	if ok1 && ok2 {
		small := func(t *T) bool { return t.hi < 1<<52 || signedConst(t.lo, 64) < 0 && t.isConst() }
		switch op {
		case token.ADD:
			r := c.Add(a, b)
			if r.hi < 1<<53 {
				return Flt{t: r}
			}
		case token.SUB:
			if small(a) && small(b) {
				return Flt{t: c.Sub(a, b)}
			}
		case token.QUO:
			if b.isConst() && b.c > 1 && b.c < 1<<20 && a.hi < 1<<52 {
				return Flt{t: a, d: b.c}
			}
			if a.hi < 1<<52 && b.hi < 1<<52 {
				if ex.decide(st, c.Eq(b, c.Const(0, 64))) {
					if ex.decide(st, c.Eq(a, c.Const(0, 64))) {
						return Flt{c: math.NaN()}
					}
					return Flt{c: math.Inf(1)}
				}
				return Flt{t: a, q: b}
			}
		case token.MUL:
			r := c.Mul(a, b)
			if r.hi < 1<<53 && small(a) && small(b) {
				return Flt{t: r}
			}
		case token.LSS:
			return c.Slt(a, b)
		case token.GTR:
			return c.Slt(b, a)
		case token.LEQ:
			return c.Sle(a, b)
		case token.GEQ:
			return c.Sle(b, a)
		}
	}
	panic(unsupported("symbolic float " + op.String()))
}

func (ex *Exec) eq(st *State, a, b Value, t types.Type) *T {
	c := ex.ctx
	switch x := a.(type) {
	case *T:
		return c.Eq(x, b.(*T))
	case Str:
		return ex.strEq(x, b.(Str))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			panic(unsupported("pointer comparison"))
		}
		return c.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return c.Bool(x.obj == 0 && y.obj == 0 || x.obj == y.obj && x.off == y.off && x.len == y.len)
	case MapV:
		return c.Bool(x == b.(MapV))
	case ChanV:
		return c.Bool(x == b.(ChanV))
	case Fn:
		y := b.(Fn)
		return c.Bool(x.fn == y.fn)
	case Flt:
		y := b.(Flt)
		if !x.sym() && !y.sym() {
			return c.Bool(x.c == y.c)
		}
		if x.e != nil || y.e != nil {
			if fltEqual(x, y) {
				return c.tTrue // no NaN: quotients are by a positive number
			}
			return c.Bool(ex.fltPin(st, x) == ex.fltPin(st, y))
		}
		if x.q != nil || y.q != nil {
			if x.t == nil && (math.IsInf(x.c, 0) || math.IsNaN(x.c)) || y.t == nil && (math.IsInf(y.c, 0) || math.IsNaN(y.c)) {
				return c.tFalse
			}
			p, ok1 := ex.fltFrac(x)
			q, ok2 := ex.fltFrac(y)
			l, r, ok := ex.cross(p, q)
			if !ok1 || !ok2 || !ok {
				panic(unsupported("comparison of a symbolic quotient"))
			}
			return c.Eq(l, r)
		}
		p, ok1 := ex.fltInt(x)
		q, ok2 := ex.fltInt(y)
		if ok1 && ok2 {
			return c.Eq(p, q)
		}
		if ok1 != ok2 {
			return c.tFalse
		}
		panic(unsupported("float comparison"))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported("interface comparison"))
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.tFalse
		}
		if !types.Comparable(x.t) {
			panic(goPanic{ex.runtimeErr(st, "comparing uncomparable type "+x.t.String())})
		}
		return ex.eq(st, x.v, y.v, x.t)
	case Agg:
		y := b.(Agg)
		r := c.tTrue
		for i := range x {
			r = c.BAnd(r, ex.eq(st, x[i], y[i], nil))
		}
		return r
	case Opaque:
		panic(unsupported("comparison of opaque value: " + x.why))
	case nil:
		return c.Bool(b == nil)
	}
	panic(unsupported(fmt.Sprintf("comparison of %T", a)))
}

func (ex *Exec) convert(st *State, from, to types.Type, v Value) Value {
	c := ex.ctx
	if o, ok := v.(Opaque); ok {
		return o
	}
	fu, tu := from.Underlying(), to.Underlying()
	tb, toBasic := tu.(*types.Basic)
	fb, fromBasic := fu.(*types.Basic)
	switch {
	case toBasic && tb.Kind() == types.UnsafePointer, fromBasic && fb.Kind() == types.UnsafePointer:
		return v
	case toBasic && tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case Str:
			return x
		case *T: // rune -> string
			if fromBasic {
				return ex.runeToStr(st, ex.asInt64(x, from).(*T))
			}
		case Slice:
			et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if et.Kind() == types.Byte || et.Kind() == types.Uint8 {
				ts := make([]*T, x.len)
				if x.len > 0 {
					o := ex.obj(st, x.obj)
					for i := range ts {
						ts[i] = o.slots[x.off+i].(*T)
					}
				}
				return mkStr(ts)
			}
			// []rune -> string
			r := Str{}
			var rs []*T
			if x.len > 0 {
				o := ex.obj(st, x.obj)
				for i := 0; i < x.len; i++ {
					rs = append(rs, o.slots[x.off+i].(*T))
				}
			}
			// fast path: all ASCII
			ascii := true
			for _, t := range rs {
				if t.hi >= 0x80 {
					ascii = false
					break
				}
			}
			if ascii {
				ts := make([]*T, len(rs))
				for i, t := range rs {
					ts[i] = c.Extract(t, 0, 8)
				}
				return mkStr(ts)
			}
			for _, t := range rs {
				r = ex.concat(r, ex.runeToStr(st, c.Sext(t, 64)))
			}
			return r
		}
	case fromBasic && fb.Info()&types.IsString != 0:
		s := v.(Str)
		et := tu.(*types.Slice).Elem()
		eb := et.Underlying().(*types.Basic)
		if eb.Kind() == types.Uint8 {
			ts := ex.strTerms(s)
			slots := make([]Value, len(ts))
			for i, t := range ts {
				slots[i] = t
			}
			id := st.alloc(slots, et)
			return Slice{id, 0, len(ts), len(ts), 1}
		}
		rs := ex.decodeRunes(st, s)
		slots := make([]Value, len(rs))
		for i, t := range rs {
			slots[i] = t
		}
		id := st.alloc(slots, et)
		return Slice{id, 0, len(rs), len(rs), 1}
	case toBasic && tb.Info()&types.IsInteger != 0:
		w, _ := intWidth(tb)
		switch x := v.(type) {
		case *T:
			_, s := intWidth(fb)
			if w <= x.w {
				return c.Zext(x, w)
			}
			if s {
				return c.Sext(x, w)
			}
			return c.Zext(x, w)
		case Flt:
			if x.e != nil || x.q != nil {
				panic(unsupported("integer of a symbolic float"))
			}
			if x.d != 0 {
				return c.Zext(c.UDiv(x.t, c.Const(x.d, 64)), w)
			}
			if x.t != nil {
				return c.Zext(x.t, w)
			}
			_, sgn := intWidth(tb)
			if sgn {
				return c.Const(uint64(int64(x.c)), w)
			}
			return c.Const(uint64(x.c), w)
		}
	case toBasic && tb.Info()&types.IsFloat != 0:
		switch x := v.(type) {
		case *T:
			_, s := intWidth(fb)
			if x.isConst() {
				if s {
					f := float64(signedConst(x.c, x.w))
					if tb.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return Flt{c: f}
				}
				return Flt{c: float64(x.c)}
			}
			var e *T
			if s {
				e = c.Sext(x, 64)
			} else {
				e = c.Zext(x, 64)
			}
			if e.hi < 1<<53 {
				return Flt{t: e}
			}
			panic(unsupported("symbolic int to float"))
		case Flt:
			if tb.Kind() == types.Float32 && !x.sym() {
				return Flt{c: float64(float32(x.c))}
			}
			return x
		}
	case toBasic && tb.Info()&types.IsComplex != 0:
		return Opaque{"complex"}
	}
	if _, ok := tu.(*types.Slice); ok {
		if _, ok2 := v.(Slice); ok2 {
			return v
		}
	}
	if _, ok := v.(Ptr); ok {
		return v
	}
	panic(unsupported(fmt.Sprintf("convert %v -> %v", from, to)))
}

// runeToStr encodes a rune (64-bit term) as UTF-8.
func (ex *Exec) runeToStr(st *State, r *T) Str {
	c := ex.ctx
	if r.isConst() {
		return Str{s: string(rune(int32(r.c)))}
	}
	k := func(v uint64) *T { return c.Const(v, 64) }
	if ex.decide(st, c.Ult(r, k(0x80))) {
		return mkStr([]*T{c.Extract(r, 0, 8)})
	}
	if ex.decide(st, c.Ult(r, k(0x800))) {
		return mkStr([]*T{
			c.Concat(c.Const(6, 3), c.Extract(r, 6, 5)),
			c.Concat(c.Const(2, 2), c.Extract(r, 0, 6)),
		})
	}
	bad := c.BOr(c.Not(c.Ult(r, k(0x110000))), c.BAnd(c.Not(c.Ult(r, k(0xd800))), c.Ult(r, k(0xe000))))
	if ex.decide(st, bad) {
		return Str{s: "\uFFFD"}
	}
	if ex.decide(st, c.Ult(r, k(0x10000))) {
		return mkStr([]*T{
			c.Concat(c.Const(14, 4), c.Extract(r, 12, 4)),
			c.Concat(c.Const(2, 2), c.Extract(r, 6, 6)),
			c.Concat(c.Const(2, 2), c.Extract(r, 0, 6)),
		})
	}
	return mkStr([]*T{
		c.Concat(c.Const(30, 5), c.Extract(r, 18, 3)),
		c.Concat(c.Const(2, 2), c.Extract(r, 12, 6)),
		c.Concat(c.Const(2, 2), c.Extract(r, 6, 6)),
		c.Concat(c.Const(2, 2), c.Extract(r, 0, 6)),
	})
}

// decodeRunes: symbolic bytes must be ASCII (others are concretised).
func (ex *Exec) decodeRunes(st *State, s Str) []*T {
	c := ex.ctx
	var out []*T
	if s.t == nil {
		for _, r := range s.s {
			out = append(out, c.Const(uint64(uint32(r)), 32))
		}
		return out
	}
	i := 0
	for i < len(s.t) {
		r, n := ex.decodeRune(st, s.t[i:])
		out = append(out, r)
		i += n
	}
	return out
}

func (ex *Exec) decodeRune(st *State, ts []*T) (*T, int) {
	c := ex.ctx
	b0 := ts[0]
	if b0.hi < 0x80 || ex.decide(st, c.Ult(b0, c.Const(0x80, 8))) {
		return c.Zext(c.Extract(b0, 0, 7), 32), 1
	}
	// non-ASCII: concretise up to 4 bytes
	var buf []byte
	for i := 0; i < 4 && i < len(ts); i++ {
		buf = append(buf, byte(ex.concretize(st, ts[i])))
	}
	for _, r := range string(buf) {
		n := len(string(r))
		if r == 0xFFFD && !strings.HasPrefix(string(buf), "\uFFFD") {
			n = 1
		}
		return c.Const(uint64(uint32(r)), 32), n
	}
	return nil, 1
}
