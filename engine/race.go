package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: every access of the code under test to memory that isn't ordered by
// the happens-before relation of the Go memory model after an earlier one of another
// goroutine, at least one of them a write. Clocks are vectors, one entry a goroutine;
// the memory's history is kept with each object.

type VC []int32

func (a VC) join(b VC) VC {
	le := len(b) <= len(a)
	if le {
		for i := range b {
			if b[i] > a[i] {
				le = false
				break
			}
		}
	}
	if le {
		return a
	}
	n := make(VC, max(len(a), len(b)))
	copy(n, a)
	for i, x := range b {
		if x > n[i] {
			n[i] = x
		}
	}
	return n
}

func (a VC) at(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a VC) with(i int, x int32) VC {
	n := make(VC, max(len(a), i+1))
	copy(n, a)
	n[i] = x
	return n
}

// cell is the history of one slot: the last write and the last reads.
type cell struct {
	wg int
	wc int32
	wp string
	rd VC
	rp string
}

type syncKey struct {
	p Ptr
	k int
}

func (st *State) startRace() {
	if st.race {
		return
	}
	st.race = true
	for i, g := range st.gs {
		g.vc = VC(nil).with(i, 1)
	}
}

func (st *State) tick() {
	g := st.g()
	g.vc = g.vc.with(st.cur, g.vc.at(st.cur)+1)
}

func (st *State) acquire(v VC) {
	if st.race {
		g := st.g()
		g.vc = g.vc.join(v)
	}
}

// release returns the clock at a release and begins the next epoch.
func (st *State) release() VC {
	if !st.race {
		return nil
	}
	v := st.g().vc
	st.tick()
	return v
}

func (st *State) acquireAt(p Ptr, k int) { st.acquire(st.syncs[syncKey{p, k}]) }

func (st *State) releaseAt(p Ptr, k int) {
	n := make(map[syncKey]VC, len(st.syncs)+1)
	for a, b := range st.syncs {
		n[a] = b
	}
	n[syncKey{p, k}] = n[syncKey{p, k}].join(st.release())
	st.syncs = n
}

// observed says whether the accesses of a frame count: those of the code under test
// and what it does with its memory through the standard library.
func (ex *Exec) observed(f *Frame) bool {
	fn := f.fn
	if o, ok := ex.raceFns[fn]; ok {
		return o
	}
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	ok := false
	if top.Pkg != nil {
		switch p := top.Pkg.Pkg.Path(); p {
		case "bytes", "sort", "strings", "strconv", "slices", "maps", "container/list", "container/heap", "bufio":
			ok = true
		default:
			ok = strings.HasPrefix(p, "github.com/iomz/")
		}
	} else if o := top.Origin(); o != nil && o.Pkg != nil {
		ok = true
	}
	if strings.HasPrefix(top.Name(), "vp") || recvIsVP(top) {
		ok = false
	}
	if ex.raceFns == nil {
		ex.raceFns = map[*ssa.Function]bool{}
	}
	ex.raceFns[fn] = ok
	return ok
}

func recvIsVP(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return false
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && strings.HasPrefix(n.Obj().Name(), "vp")
}

const mapSlot = -1

// access records an access to n slots and reports a race.
func (ex *Exec) access(st *State, obj, off, n int, write bool) {
	if !st.race || len(st.gs) < 2 || ex.initing > 0 || obj == 0 || len(st.g().frames) == 0 {
		return
	}
	f := st.top()
	if !ex.observed(f) {
		return
	}
	ex.obj(st, obj)
	o := st.heap.mut(obj)
	g, me := st.g(), st.cur
	pos := func() string {
		in := f.block.Instrs[f.idx]
		p := ex.w.prog.Fset.Position(in.Pos())
		s := p.String()
		if i := strings.LastIndex(s, "/"); i >= 0 {
			s = s[i+1:]
		}
		return fmt.Sprintf("%s (%s)", f.fn.Name(), s)
	}
	at := ""
	for i := off; i < off+n; i++ {
		c := o.sh[i]
		race := ""
		if c.wc > g.vc.at(c.wg) && c.wg != me {
			race = "written by " + c.wp
		}
		if write {
			for j, x := range c.rd {
				if j != me && x > g.vc.at(j) {
					race = "read by " + c.rp
				}
			}
		}
		if at == "" {
			at = pos()
		}
		if race != "" {
			how := "read"
			if write {
				how = "written"
			}
			ex.report(st, "race", fmt.Sprintf("memory %s, is %s by %s without synchronisation", race, how, at), nil)
			panic(killPath{"race"})
		}
		if write {
			c = cell{wg: me, wc: g.vc.at(me), wp: at}
		} else {
			c.rd = c.rd.with(me, g.vc.at(me))
			c.rp = at
		}
		if o.sh == nil {
			o.sh = map[int]cell{}
		}
		o.sh[i] = c
	}
}

// syncHooks: the edges of the operations that are intrinsics; called after them.
var syncHooks = map[string]func(ex *Exec, st *State, a []Value){}

func init() {
	h := func(n string, f func(st *State, p Ptr)) {
		syncHooks[n] = func(ex *Exec, st *State, a []Value) {
			if p, ok := a[0].(Ptr); ok {
				f(st, p)
			}
		}
	}
	h("(*sync.Mutex).Lock", func(st *State, p Ptr) { st.acquireAt(p, 0) })
	h("(*sync.Mutex).TryLock", func(st *State, p Ptr) { st.acquireAt(p, 0) })
	h("(*sync.Mutex).Unlock", func(st *State, p Ptr) { st.releaseAt(p, 0) })
	h("(*sync.RWMutex).Lock", func(st *State, p Ptr) { st.acquireAt(p, 0); st.acquireAt(p, 1) })
	h("(*sync.RWMutex).Unlock", func(st *State, p Ptr) { st.releaseAt(p, 0) })
	h("(*sync.RWMutex).RLock", func(st *State, p Ptr) { st.acquireAt(p, 0) })
	h("(*sync.RWMutex).RUnlock", func(st *State, p Ptr) { st.releaseAt(p, 1) })
	h("(*sync.WaitGroup).Add", func(st *State, p Ptr) { st.releaseAt(p, 0) })
	h("(*sync.WaitGroup).Done", func(st *State, p Ptr) { st.releaseAt(p, 0) })
	h("(*sync.WaitGroup).Wait", func(st *State, p Ptr) { st.acquireAt(p, 0) })
	both := func(st *State, p Ptr) { st.acquireAt(p, 0); st.releaseAt(p, 0) }
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		h("sync/atomic.Load"+w, func(st *State, p Ptr) { st.acquireAt(p, 0) })
		for _, o := range []string{"Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
			h("sync/atomic."+o+w, both)
		}
	}
	h("(*sync/atomic.Value).Load", func(st *State, p Ptr) { st.acquireAt(p, 0) })
	for _, o := range []string{"Store", "Swap", "CompareAndSwap"} {
		h("(*sync/atomic.Value)."+o, both)
	}
	for n := range stubTable {
		if strings.HasPrefix(n, "(*sync.Map).") {
			h(n, both)
		}
	}
}

func (ex *Exec) synced(st *State, name string, a []Value, r Value) {
	if !st.race {
		return
	}
	if _, b := r.(blockOn); b {
		return
	}
	if h := syncHooks[name]; h != nil && len(a) > 0 {
		h(ex, st, a)
	}
}

func init() {
	// vpRaces(): from here on races are looked for
	reg("vpRaces", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		st.startRace()
		return nil
	})
	slot := func(ex *Exec, st *State, v Value) Ptr {
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("atomic on a symbolic pointer"))
		}
		if p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		ex.obj(st, p.obj)
		return p
	}
	for _, n := range []string{"sync/atomic.LoadPointer", "(*sync/atomic.Value).Load"} {
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			p := slot(ex, st, a[0])
			return ex.obj(st, p.obj).slots[p.off]
		})
	}
	store := func(ex *Exec, st *State, p Ptr, v Value) {
		if i, ok := v.(Iface); ok {
			if i.t == nil {
				panic(strPanic("sync/atomic: store of nil value into Value"))
			}
			if o := ex.obj(st, p.obj).slots[p.off].(Iface); o.t != nil && !types.Identical(o.t, i.t) {
				panic(strPanic("sync/atomic: store of inconsistently typed value into Value"))
			}
		}
		st.heap.mut(p.obj).slots[p.off] = v
	}
	for _, n := range []string{"sync/atomic.StorePointer", "(*sync/atomic.Value).Store"} {
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			store(ex, st, slot(ex, st, a[0]), a[1])
			return nil
		})
	}
	for _, n := range []string{"sync/atomic.SwapPointer", "(*sync/atomic.Value).Swap"} {
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			p := slot(ex, st, a[0])
			old := ex.obj(st, p.obj).slots[p.off]
			store(ex, st, p, a[1])
			return old
		})
	}
	for _, n := range []string{"sync/atomic.CompareAndSwapPointer", "(*sync/atomic.Value).CompareAndSwap"} {
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			p := slot(ex, st, a[0])
			t := fn.Signature.Params().At(fn.Signature.Params().Len() - 1).Type()
			if !ex.decide(st, ex.eq(st, ex.obj(st, p.obj).slots[p.off], a[1], t)) {
				return ex.ctx.tFalse
			}
			store(ex, st, p, a[2])
			return ex.ctx.tTrue
		})
	}
}

// sendClock and recvClock: the k-th receive from a channel of capacity C is ordered
// before the completion of the k+C-th send.
func (st *State) sendClock(ch *ChanData) {
	if !st.race {
		return
	}
	ch.nsent++
	if ch.nsent > ch.cap && len(ch.rvc) > 0 {
		st.acquire(ch.rvc[0])
		ch.rvc = append([]VC(nil), ch.rvc[1:]...)
	}
	for len(ch.bvc) < len(ch.buf)-1 {
		ch.bvc = append(ch.bvc, nil) // sent before races were looked for
	}
	ch.bvc = append(ch.bvc, st.release())
}

func (st *State) recvClock(ch *ChanData) {
	if !st.race {
		return
	}
	v := st.release()
	if len(ch.bvc) > 0 {
		st.acquire(ch.bvc[0])
		ch.bvc = append([]VC(nil), ch.bvc[1:]...)
	}
	if ch.cap > 0 {
		ch.rvc = append(ch.rvc, v)
		if len(ch.rvc) > ch.cap {
			ch.rvc = append([]VC(nil), ch.rvc[1:]...)
		}
	}
}
