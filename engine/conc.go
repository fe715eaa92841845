package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Virtual time, timers, locks and the reflection on channels: what code with several
// goroutines needs. The clock stands still while any goroutine can run and then
// jumps to the next timer, as in a synctest bubble.

type timer struct {
	when   *T
	period *T // nil: once
	ch     int
	gor    int // -1: a channel
	id     int // object of the Ticker or Timer
}

const maxAdvances = 200

func (ex *Exec) clockNow(st *State) *T {
	if st.now == nil {
		return ex.ctx.Const(0, 64)
	}
	return st.now
}

func (ex *Exec) addTimer(st *State, t timer) {
	st.timers = append(append([]timer(nil), st.timers...), t)
}

func (ex *Exec) dropTimer(st *State, keep func(t timer) bool) bool {
	var out []timer
	for _, t := range st.timers {
		if keep(t) {
			out = append(out, t)
		}
	}
	ch := len(out) != len(st.timers)
	st.timers = out
	return ch
}

// advanceClock moves the clock to the next timer and fires it; false when there is none.
func (ex *Exec) advanceClock(st *State) bool {
	if len(st.timers) == 0 {
		return false
	}
	if st.advances >= maxAdvances {
		return false
	}
	min := st.timers[0].when
	for _, t := range st.timers[1:] {
		if t.when != min && ex.decide(st, ex.ctx.Ult(t.when, min)) {
			min = t.when
		}
	}
	var due []bool
	for _, t := range st.timers {
		due = append(due, t.when == min || ex.decide(st, ex.ctx.Eq(t.when, min)))
	}
	st.advances++
	st.now = min
	var left []timer
	for i, t := range st.timers {
		if !due[i] {
			left = append(left, t)
			continue
		}
		if t.gor >= 0 {
			st.gs[t.gor].asleep = false
		} else {
			o := ex.obj(st, t.ch)
			if len(o.ch.buf) < o.ch.cap {
				o = st.heap.mut(t.ch)
				o.ch.buf = append(o.ch.buf, ex.timeValue(st))
				if st.race {
					o.ch.bvc = append(o.ch.bvc, nil)
				}
			}
		}
		if t.period != nil {
			t.when = ex.ctx.Add(min, t.period)
			left = append(left, t)
		}
	}
	st.timers = left
	return true
}

// timeValue is a time.Time with a monotonic reading of the clock.
func (ex *Exec) timeValue(st *State) Value {
	c := ex.ctx
	now := ex.clockNow(st)
	// the wall clock: seconds since 1885 and nanoseconds
	const begin = 4210099200 // 2018-06-01
	wall := uint64(1)<<63 | begin<<30
	if now.isConst() {
		wall += now.c/1e9<<30 | now.c%1e9
	}
	return Agg{c.Const(wall, 64), c.Add(now, c.Const(1, 64)), Ptr{}}
}

func (ex *Exec) monotonic(v Value) (*T, bool) {
	a, ok := v.(Agg)
	if !ok || len(a) != 3 {
		return nil, false
	}
	w := ex.ctx.Extract(a[0].(*T), 63, 1)
	if !w.isConst() || w.c == 0 {
		return nil, false
	}
	return a[1].(*T), true
}

// preempt lets another goroutine run before a channel operation of this one.
func (ex *Exec) preempt(st *State) {
	if !ex.sched || ex.maxDev == 0 || st.devs >= ex.maxDev || ex.initing > 0 {
		return
	}
	g := st.g()
	if g.passed {
		return
	}
	var sts []*State
	for i, o := range st.gs {
		if i == st.cur || o.done || o.settle || len(o.frames) == 0 || o.blocked != nil && !o.blocked(ex, st) {
			continue
		}
		n := st.clone()
		n.gs[n.cur].passed = true
		n.cur = i
		n.gs[i].blocked = nil
		n.devs++
		n.turns = &Turn{n.turns, fmt.Sprintf("step %d: goroutine %d (%s) runs while %d (%s) comes to a channel", n.steps, i, where(o), st.cur, where(g))}
		sts = append(sts, n)
	}
	g.passed = true
	if len(sts) == 0 {
		return
	}
	ex.stats.Forks += int64(len(sts))
	panic(forkSignal{append([]*State{st}, sts...)})
}

// chooseReady picks one of the ready cases of a select; the first is free of charge.
func (ex *Exec) chooseReady(st *State, n int) int {
	if !ex.sched || n < 2 || st.devs >= ex.maxDev && len(st.choice) == 0 {
		return 0
	}
	k := ex.choose(st, "select", n)
	if k > 0 {
		st.devs++
		st.turns = &Turn{st.turns, fmt.Sprintf("step %d: goroutine %d (%s) selects the ready case %d", st.steps, st.cur, where(st.g()), k)}
	}
	return k
}

func (ex *Exec) slotInt(st *State, p Ptr, i int) int {
	t, ok := ex.obj(st, p.obj).slots[p.off+i].(*T)
	if !ok || !t.isConst() {
		panic(unsupported("lock state"))
	}
	return int(t.c)
}

func (ex *Exec) setSlotInt(st *State, p Ptr, i, v int) {
	st.heap.mut(p.obj).slots[p.off+i] = ex.ctx.Const(uint64(v), 32)
}

// reflect.Value holds the interface value in its first slot.
func rv(v Value) (Iface, bool) {
	a, ok := v.(Agg)
	if !ok || len(a) == 0 {
		return Iface{}, false
	}
	i, ok := a[0].(Iface)
	return i, ok
}

func (ex *Exec) mkRV(t types.Type, v Value) Value {
	if t == nil {
		return Agg{Ptr{}, Ptr{}, ex.ctx.Const(0, 64)}
	}
	return Agg{Iface{t: t, v: v}, Ptr{}, ex.ctx.Const(1, 64)}
}

func (ex *Exec) mustRV(v Value) Iface {
	i, ok := rv(v)
	if !ok {
		panic(strPanic("reflect: call of a method on zero Value"))
	}
	return i
}

func (ex *Exec) rvField(i Iface, s *types.Struct, k int) Value {
	a := i.v.(Agg)
	off := ex.lay.fieldOff(s, k)
	ft := s.Field(k).Type()
	if it, ok := ft.Underlying().(*types.Interface); ok {
		_ = it
		panic(unsupported("reflect: interface field"))
	}
	if isAgg(ft) {
		return ex.mkRV(ft, Agg(append([]Value(nil), a[off:off+ex.lay.sizeof(ft)]...)))
	}
	return ex.mkRV(ft, a[off])
}

func init() {
	// ---- time ----
	reg("time.Now", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.timeValue(st)
	})
	reg("time.ParseDuration", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s, ok := cstr(a[0])
		if !ok {
			panic(unsupported("ParseDuration of a symbolic string"))
		}
		d, err := time.ParseDuration(s)
		if err != nil {
			return Tup{ex.k64(0), ex.mkError(st, Str{s: err.Error()})}
		}
		return Tup{ex.k64(int(d)), Iface{}}
	})
	reg("time.Since", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		m, ok := ex.monotonic(a[0])
		if !ok {
			panic(unsupported("time.Since of a time without monotonic reading"))
		}
		return ex.ctx.Sub(ex.ctx.Add(ex.clockNow(st), ex.ctx.Const(1, 64)), m)
	})
	reg("(time.Time).Sub", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x, ok1 := ex.monotonic(a[0])
		y, ok2 := ex.monotonic(a[1])
		if !ok1 || !ok2 {
			return notHandled{}
		}
		return ex.ctx.Sub(x, y)
	})
	reg("time.Sleep", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		g := st.g()
		if g.slept {
			g.slept = false
			return nil
		}
		d := a[0].(*T)
		if ex.decide(st, ex.ctx.Sle(d, ex.ctx.Const(0, 64))) {
			return nil
		}
		id := st.cur
		ex.addTimer(st, timer{when: ex.ctx.Add(ex.clockNow(st), d), gor: id})
		g.asleep, g.slept = true, true
		return blockOn{func(ex *Exec, st *State) bool { return !st.gs[id].asleep }}
	})
	newCh := func(ex *Exec, st *State, t types.Type) ChanV {
		id := st.alloc(nil, t)
		st.heap.mut(id).ch = &ChanData{cap: 1}
		return ChanV{id}
	}
	tick := func(periodic bool) intrinsic {
		return func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			d := a[0].(*T)
			if periodic && ex.decide(st, ex.ctx.Sle(d, ex.ctx.Const(0, 64))) {
				panic(strPanic("non-positive interval for NewTicker"))
			}
			rt := fn.Signature.Results().At(0).Type()
			t := timer{when: ex.ctx.Add(ex.clockNow(st), d), gor: -1}
			if periodic {
				t.period = d
			}
			pt, isP := rt.Underlying().(*types.Pointer)
			if !isP { // time.After, time.Tick
				c := newCh(ex, st, rt)
				t.ch = c.obj
				ex.addTimer(st, t)
				return c
			}
			s := pt.Elem().Underlying().(*types.Struct)
			id := st.alloc(ex.zeroSlots(pt.Elem()), pt.Elem())
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "C" {
					c := newCh(ex, st, s.Field(i).Type())
					t.ch = c.obj
					st.heap.mut(id).slots[ex.lay.fieldOff(s, i)] = c
				}
			}
			t.id = id
			ex.addTimer(st, t)
			return Ptr{obj: id}
		}
	}
	reg("time.NewTicker", tick(true))
	reg("time.Tick", tick(true))
	reg("time.NewTimer", tick(false))
	reg("time.After", tick(false))
	stop := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		id := a[0].(Ptr).obj
		ch := ex.dropTimer(st, func(t timer) bool { return t.id != id })
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return ex.ctx.Bool(ch)
	}
	reg("(*time.Ticker).Stop", stop)
	reg("(*time.Timer).Stop", stop)

	// ---- locks ----
	lock := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		if ex.slotInt(st, p, 0) == 0 {
			ex.setSlotInt(st, p, 0, 1)
			return nil
		}
		return blockOn{func(ex *Exec, st *State) bool { return ex.slotInt(st, p, 0) == 0 }}
	}
	unlock := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if ex.slotInt(st, p, 0) == 0 {
			panic(strPanic("fatal error: sync: unlock of unlocked mutex"))
		}
		ex.setSlotInt(st, p, 0, 0)
		return nil
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.Mutex).TryLock", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if ex.slotInt(st, p, 0) != 0 {
			return ex.ctx.tFalse
		}
		ex.setSlotInt(st, p, 0, 1)
		return ex.ctx.tTrue
	})
	// slot 0: writer, 1: waiting writers, 2: readers
	reg("(*sync.RWMutex).Lock", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		g := st.g()
		free := func(ex *Exec, st *State) bool { return ex.slotInt(st, p, 0) == 0 && ex.slotInt(st, p, 2) == 0 }
		if free(ex, st) {
			if g.waitW {
				g.waitW = false
				ex.setSlotInt(st, p, 1, ex.slotInt(st, p, 1)-1)
			}
			ex.setSlotInt(st, p, 0, 1)
			return nil
		}
		if !g.waitW {
			g.waitW = true
			ex.setSlotInt(st, p, 1, ex.slotInt(st, p, 1)+1)
		}
		return blockOn{free}
	})
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		if p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		free := func(ex *Exec, st *State) bool { return ex.slotInt(st, p, 0) == 0 && ex.slotInt(st, p, 1) == 0 }
		if free(ex, st) {
			ex.setSlotInt(st, p, 2, ex.slotInt(st, p, 2)+1)
			return nil
		}
		return blockOn{free}
	})
	reg("(*sync.RWMutex).RUnlock", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		n := ex.slotInt(st, p, 2)
		if n == 0 {
			panic(strPanic("fatal error: sync: RUnlock of unlocked RWMutex"))
		}
		ex.setSlotInt(st, p, 2, n-1)
		return nil
	})
	// a WaitGroup counts in its first slot
	wg := func(d int) intrinsic {
		return func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			n := d
			if d == 0 {
				n = ex.concInt(st, a[1])
			}
			v := ex.wgCount(st, p) + n
			if v < 0 {
				panic(strPanic("sync: negative WaitGroup counter"))
			}
			st.heap.mut(p.obj).slots[p.off] = ex.ctx.Const(uint64(v), 64)
			return nil
		}
	}
	reg("(*sync.WaitGroup).Add", wg(0))
	reg("(*sync.WaitGroup).Done", wg(-1))
	reg("(*sync.WaitGroup).Wait", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		free := func(ex *Exec, st *State) bool { return ex.wgCount(st, p) == 0 }
		if free(ex, st) {
			return nil
		}
		return blockOn{free}
	})
	reg("(*sync.Once).Do", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		p := a[0].(Ptr)
		o := ex.obj(st, p.obj)
		if t, ok := o.slots[p.off].(*T); ok && t.isConst() && t.c == 1 {
			st.acquireAt(p, 0)
			return nil
		}
		// marked before the call: a second caller doesn't wait for the first
		w := 32
		if t, ok := o.slots[p.off].(*T); ok {
			w = t.w
		}
		st.heap.mut(p.obj).slots[p.off] = ex.ctx.Const(1, w)
		f := a[1].(Fn)
		nf := ex.pushFrame(st, f.fn, nil, f.bind, nil)
		nf.noRet = true
		if st.race {
			nf.onRet = func(ex *Exec, st *State, ret Value) { st.releaseAt(p, 0) }
		}
		return pushedFrame{}
	})

	// ---- atomics: one step each ----
	for _, w := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}} {
		ld := func(ex *Exec, st *State, v Value) (*T, Ptr) {
			p, ok := v.(Ptr)
			if !ok {
				panic(unsupported("atomic on a symbolic pointer"))
			}
			if p.obj == 0 {
				panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
			}
			return ex.obj(st, p.obj).slots[p.off].(*T), p
		}
		reg("sync/atomic.Load"+w.n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			t, _ := ld(ex, st, a[0])
			return t
		})
		reg("sync/atomic.Store"+w.n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			_, p := ld(ex, st, a[0])
			st.heap.mut(p.obj).slots[p.off] = a[1]
			return nil
		})
		reg("sync/atomic.Add"+w.n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			t, p := ld(ex, st, a[0])
			r := ex.ctx.Add(t, a[1].(*T))
			st.heap.mut(p.obj).slots[p.off] = r
			return r
		})
		reg("sync/atomic.Swap"+w.n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			t, p := ld(ex, st, a[0])
			st.heap.mut(p.obj).slots[p.off] = a[1]
			return t
		})
		reg("sync/atomic.CompareAndSwap"+w.n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			t, p := ld(ex, st, a[0])
			if !ex.decide(st, ex.ctx.Eq(t, a[1].(*T))) {
				return ex.ctx.tFalse
			}
			st.heap.mut(p.obj).slots[p.off] = a[2]
			return ex.ctx.tTrue
		})
	}

	// ---- reflect ----
	reg("reflect.ValueOf", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if _, ok := rv(i.v); ok && i.t != nil && i.t.String() == "reflect.Value" {
			panic(unsupported("reflect.ValueOf a reflect.Value"))
		}
		return ex.mkRV(i.t, i.v)
	})
	reg("(reflect.Value).Interface", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.mustRV(a[0])
	})
	reg("(reflect.Value).IsValid", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		_, ok := rv(a[0])
		return ex.ctx.Bool(ok)
	})
	reg("(reflect.Value).Int", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		b, ok := i.t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 {
			panic(strPanic("reflect: call of reflect.Value.Int on another kind of Value"))
		}
		return ex.ctx.Sext(i.v.(*T), 64)
	})
	reg("(reflect.Value).Uint", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		b, ok := i.t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsUnsigned == 0 {
			panic(strPanic("reflect: call of reflect.Value.Uint on another kind of Value"))
		}
		return ex.ctx.Zext(i.v.(*T), 64)
	})
	reg("(reflect.Value).Float", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		f, ok := i.v.(Flt)
		if !ok {
			panic(strPanic("reflect: call of reflect.Value.Float on another kind of Value"))
		}
		return f
	})
	reg("(reflect.Value).Bool", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		return i.v.(*T)
	})
	reg("(reflect.Value).String", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i, ok := rv(a[0])
		if !ok {
			return Str{s: "<invalid Value>"}
		}
		if s, ok := i.v.(Str); ok {
			return s
		}
		return Str{s: "<" + i.t.String() + " Value>"}
	})
	ptr := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		p, ok := i.v.(Ptr)
		if !ok {
			panic(unsupported("reflect: pointer of another kind"))
		}
		return p
	}
	reg("(reflect.Value).Pointer", ptr)
	reg("(reflect.Value).UnsafePointer", ptr)
	reg("(reflect.Value).IsNil", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		switch x := ex.mustRV(a[0]).v.(type) {
		case Ptr:
			return ex.ctx.Bool(x.obj == 0)
		case ChanV:
			return ex.ctx.Bool(x.obj == 0)
		case MapV:
			return ex.ctx.Bool(x.obj == 0)
		}
		panic(unsupported("reflect: IsNil"))
	})
	reg("(reflect.Value).FieldByName", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		s, ok := i.t.Underlying().(*types.Struct)
		if !ok {
			panic(strPanic("reflect: call of reflect.Value.FieldByName on another kind of Value"))
		}
		n, conc := cstr(a[1])
		if !conc {
			panic(unsupported("reflect: symbolic field name"))
		}
		for k := 0; k < s.NumFields(); k++ {
			if s.Field(k).Name() == n {
				return ex.rvField(i, s, k)
			}
		}
		return ex.mkRV(nil, nil)
	})
	reg("(reflect.Value).Field", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i := ex.mustRV(a[0])
		s, ok := i.t.Underlying().(*types.Struct)
		k := ex.concInt(st, a[1])
		if !ok || k < 0 || k >= s.NumFields() {
			panic(strPanic("reflect: Field index out of range"))
		}
		return ex.rvField(i, s, k)
	})
	reg("(reflect.Value).NumField", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s, ok := ex.mustRV(a[0]).t.Underlying().(*types.Struct)
		if !ok {
			panic(strPanic("reflect: NumField of another kind of Value"))
		}
		return ex.k64(s.NumFields())
	})
	reg("reflect.Select", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ex.preempt(st)
		sl := a[0].(Slice)
		ct := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		s := ct.Underlying().(*types.Struct)
		var chs []ChanV
		var ets []types.Type
		def := -1
		for i := 0; i < sl.len; i++ {
			o := ex.obj(st, sl.obj)
			base := sl.off + i*sl.es
			d := o.slots[base].(*T)
			if !d.isConst() || d.c != 2 && d.c != 3 {
				panic(unsupported("reflect.Select: only receiving"))
			}
			if d.c == 3 {
				def = i
				chs, ets = append(chs, ChanV{}), append(ets, nil)
				continue
			}
			off := ex.lay.fieldOff(s, 1)
			c, ok := rv(Agg(o.slots[base+off : base+off+3]))
			if !ok { // zero Value: never ready
				chs, ets = append(chs, ChanV{}), append(ets, nil)
				continue
			}
			chs = append(chs, c.v.(ChanV))
			ets = append(ets, c.t.Underlying().(*types.Chan).Elem())
		}
		me := st.cur
		ready := func(ex *Exec, st *State) []int {
			var out []int
			for i, c := range chs {
				if ex.canRecv(st, c, me) {
					out = append(out, i)
				}
			}
			return out
		}
		g := st.g()
		r := ready(ex, st)
		if len(r) == 0 {
			if def >= 0 {
				return Tup{ex.k64(def), ex.mkRV(nil, nil), ex.ctx.tFalse}
			}
			sel := map[int]bool{}
			for _, c := range chs {
				sel[c.obj] = true
			}
			st.waitRecv(0, sel)
			return blockOn{func(ex *Exec, st *State) bool { return len(ready(ex, st)) > 0 }}
		}
		pick := r[0]
		pick = r[ex.chooseReady(st, len(r))]
		g.selRecv = nil
		g.passed = false
		v, ok, _ := ex.tryRecv(st, chs[pick], ets[pick])
		if ok == ex.ctx.tFalse {
			return Tup{ex.k64(pick), ex.mkRV(ets[pick], ex.zero(ets[pick])), ok}
		}
		return Tup{ex.k64(pick), ex.mkRV(ets[pick], v), ok}
	})

	reg("vpSettle", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		g := st.g()
		if g.settle {
			g.settle = false
			if st.race { // the others came to rest before
				for _, o := range st.gs {
					g.vc = g.vc.join(o.vc)
				}
			}
			return nil
		}
		g.settle = true
		return blockOn{func(ex *Exec, st *State) bool { return false }} // see schedule
	})
	reg("vpSame", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		if x, y := a[0].(Flt), a[1].(Flt); !x.sym() && !y.sym() {
			return ex.ctx.Bool(x.c == y.c || math.Abs(x.c-y.c) <= 1e-9*(x.c+y.c))
		}
		p, ok1 := ex.fltRat(a[0].(Flt))
		q, ok2 := ex.fltRat(a[1].(Flt))
		if ok1 && ok2 {
			h1, l1 := bits.Mul64(p[0].hi, q[1].hi)
			h2, l2 := bits.Mul64(q[0].hi, p[1].hi)
			if h1 == 0 && h2 == 0 && l1 < 1<<62 && l2 < 1<<62 {
				return ex.ctx.Eq(ex.ctx.Mul(p[0], q[1]), ex.ctx.Mul(q[0], p[1]))
			}
		}
		return ex.eq(st, a[0], a[1], fn.Signature.Params().At(0).Type())
	})
	// vpBubble(f): f in a bubble of virtual time
	reg("vpBubble", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		f := a[0].(Fn)
		ex.pushFrame(st, f.fn, nil, f.bind, nil).noRet = true
		return pushedFrame{}
	})
}

func (ex *Exec) wgCount(st *State, p Ptr) int {
	t, ok := ex.obj(st, p.obj).slots[p.off].(*T)
	if !ok || !t.isConst() {
		panic(unsupported("WaitGroup"))
	}
	return int(signedConst(t.c, t.w))
}

// stubTable: functions of the standard library replaced by Go code of the runtime.
var stubTable = map[string]string{
	"(*sync.Map).Load":          "vpSyncMapLoad",
	"(*sync.Map).Store":         "vpSyncMapStore",
	"(*sync.Map).LoadOrStore":   "vpSyncMapLoadOrStore",
	"(*sync.Map).LoadAndDelete": "vpSyncMapLoadAndDelete",
	"(*sync.Map).Delete":        "vpSyncMapDelete",
	"(*sync.Map).Range":         "vpSyncMapRange",
	"context.WithCancel":        "vpWithCancel",

	"os.Open":          "vpOpen",
	"os.ReadFile":      "vpReadFile",
	"os.WriteFile":     "vpWriteFile",
	"(*os.File).Read":  "vpFileRead",
	"(*os.File).Close": "vpFileClose",

	"encoding/binary.Read":  "vpBinaryRead",
	"encoding/binary.Write": "vpBinaryWrite",

	"net.Dial":        "vpDial",
	"net.DialTimeout": "vpDialTimeout",
	"net.Listen":      "vpListen",

	"github.com/influxdata/influxdb1-client/v2.NewHTTPClient": "vpNewHTTPClient",
	"github.com/influxdata/influxdb1-client/v2.NewPoint":      "vpNewPoint",
}
