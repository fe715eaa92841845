package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) builtin(st *State, b *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	c := ex.ctx
	k := func(n int) Value { return c.Const(uint64(n), 64) }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return k(x.length())
		case Slice:
			return k(x.len)
		case MapV:
			if x.obj == 0 {
				return k(0)
			}
			ex.access(st, x.obj, mapSlot, 1, false)
			return k(len(ex.obj(st, x.obj).m.ents))
		case ChanV:
			if x.obj == 0 {
				return k(0)
			}
			return k(len(ex.obj(st, x.obj).ch.buf))
		case Ptr, Agg:
			t := call.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return k(int(t.(*types.Array).Len()))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return k(x.cap)
		case ChanV:
			if x.obj == 0 {
				return k(0)
			}
			return k(ex.obj(st, x.obj).ch.cap)
		}
	case "append":
		s := args[0].(Slice)
		et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
		var add []Value
		switch y := args[1].(type) {
		case Str:
			for _, t := range ex.strTerms(y) {
				add = append(add, t)
			}
		case Slice:
			if y.len > 0 {
				ex.access(st, y.obj, y.off, y.len*y.es, false)
				o := ex.obj(st, y.obj)
				add = append(add, o.slots[y.off:y.off+y.len*y.es]...)
			}
		}
		return ex.appendSlots(st, s, et, add)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		n := 0
		switch y := args[1].(type) {
		case Str:
			for _, t := range ex.strTerms(y) {
				src = append(src, t)
			}
			n = len(src)
		case Slice:
			n = y.len
			if n > d.len {
				n = d.len
			}
			if n > 0 {
				ex.access(st, y.obj, y.off, n*y.es, false)
				o := ex.obj(st, y.obj)
				src = append(src, o.slots[y.off:y.off+n*y.es]...)
			}
		}
		if n > d.len {
			n = d.len
		}
		if n > 0 {
			ex.access(st, d.obj, d.off, n*d.es, true)
			ex.obj(st, d.obj)
			o := st.heap.mut(d.obj)
			copy(o.slots[d.off:d.off+n*d.es], src[:n*d.es])
		}
		return k(n)
	case "delete":
		m := args[0].(MapV)
		ex.access(st, m.obj, mapSlot, 1, true)
		ex.mapDelete(st, m, args[1])
		return nil
	case "close":
		ch := args[0].(ChanV)
		if ch.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "close of nil channel")})
		}
		o := st.heap.mut(ch.obj)
		if o.ch.closed {
			panic(goPanic{ex.runtimeErr(st, "close of closed channel")})
		}
		o.ch.closed = true
		o.ch.cvc = st.release()
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "print", "println":
		return nil
	case "recover":
		return ex.recoverOp(st)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *T:
				y := a.(*T)
				_, s := intWidth(call.Args[0].Type().Underlying().(*types.Basic))
				var lt *T
				if s {
					lt = c.Slt(x, y)
				} else {
					lt = c.Ult(x, y)
				}
				if b.Name() == "min" {
					r = c.Ite(lt, x, y)
				} else {
					r = c.Ite(lt, y, x)
				}
			default:
				panic(unsupported("min/max"))
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				ex.obj(st, x.obj)
				o := st.heap.mut(x.obj)
				o.m = &MapData{idx: map[string]int{}}
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			if x.len > 0 {
				ex.obj(st, x.obj)
				o := st.heap.mut(x.obj)
				z := ex.zeroSlots(et)
				for i := 0; i < x.len; i++ {
					copy(o.slots[x.off+i*x.es:], z)
				}
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		return args[0]
	case "String": // unsafe.String
		p, ok := args[0].(Ptr)
		n := ex.concInt(st, args[1])
		if n == 0 {
			return Str{}
		}
		if !ok {
			break
		}
		o := ex.obj(st, p.obj)
		ts := make([]*T, n)
		for i := range ts {
			ts[i] = o.slots[p.off+i].(*T)
		}
		return mkStr(ts)
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "StringData":
		s := args[0].(Str)
		ts := ex.strTerms(s)
		slots := make([]Value, len(ts))
		for i, t := range ts {
			slots[i] = t
		}
		id := st.alloc(slots, types.Typ[types.Uint8])
		return Ptr{id, 0}
	case "Slice":
		p := args[0].(Ptr)
		n := ex.concInt(st, args[1])
		et := call.Args[0].Type().Underlying().(*types.Pointer).Elem()
		return Slice{p.obj, p.off, n, n, ex.lay.sizeof(et)}
	}
	panic(unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0])))
}

func (ex *Exec) recoverOp(st *State) Value {
	g := st.g()
	n := len(g.frames)
	// recover must be called directly by a deferred function of a panicking frame
	if n >= 2 {
		f := g.frames[n-1]
		below := g.frames[n-2]
		if f.isDefer && below.panicV != nil && !below.recov {
			below.recov = true
			v := *below.panicV
			return v
		}
	}
	return Iface{}
}

func (ex *Exec) appendSlots(st *State, s Slice, et types.Type, add []Value) Slice {
	es := ex.lay.sizeof(et)
	n := 0
	if es > 0 {
		n = len(add) / es
	}
	if n == 0 {
		return s
	}
	if s.obj != 0 && s.len+n <= s.cap {
		ex.access(st, s.obj, s.off+s.len*es, n*es, true)
		ex.obj(st, s.obj)
		o := st.heap.mut(s.obj)
		copy(o.slots[s.off+s.len*es:], add)
		return Slice{s.obj, s.off, s.len + n, s.cap, es}
	}
	need := s.len + n
	nc := growCap(s.cap, need, et)
	slots := make([]Value, 0, nc*es)
	if s.len > 0 {
		ex.access(st, s.obj, s.off, s.len*es, false)
		o := ex.obj(st, s.obj)
		slots = append(slots, o.slots[s.off:s.off+s.len*es]...)
	}
	slots = append(slots, add...)
	if isAgg(et) {
		z := ex.zeroSlots(et)
		for len(slots) < nc*es {
			slots = append(slots, z...)
		}
	} else {
		z := ex.zero(et)
		for len(slots) < nc*es {
			slots = append(slots, z)
		}
	}
	id := st.alloc(slots, et)
	return Slice{id, 0, need, nc, es}
}

var goSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows runtime.growslice, so that aliasing through spare capacity is
// what the real program would see.
func growCap(old, need int, et types.Type) int {
	nc := old
	if need > old*2 {
		nc = need
	} else if old < 256 {
		nc = old * 2
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	sz := int(goSizes.Sizeof(et))
	if sz == 0 {
		return need
	}
	bytes := nc * sz
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return c / sz
			}
		}
	}
	return (bytes + 8191) / 8192 * 8192 / sz
}

// ---------- maps ----------

func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *T:
		if x.isConst() {
			return fmt.Sprintf("i%d", x.c), true
		}
		if x.isBoolConst() {
			return fmt.Sprintf("b%d", x.op), true
		}
		return "", false
	case Str:
		if x.t == nil {
			return "s" + x.s, true
		}
		return "", false
	case Ptr:
		return fmt.Sprintf("p%d.%d", x.obj, x.off), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := concKey(x.v)
		return "I" + x.t.String() + ":" + k, ok
	case Agg:
		s := "A"
		for _, e := range x {
			k, ok := concKey(e)
			if !ok {
				return "", false
			}
			s += fmt.Sprintf("%d:%s", len(k), k)
		}
		return s, true
	case ChanV:
		return fmt.Sprintf("c%d", x.obj), true
	}
	return "", false
}

// mapFind returns the entry index for key on this path (forking), -1 if absent.
func (ex *Exec) mapFind(st *State, m *MapData, key Value, kt types.Type) int {
	ck, conc := concKey(key)
	if conc && m.idx != nil {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i, e := range m.ents {
		if ex.decide(st, ex.eq(st, e.k, key, kt)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) mapUpdate(st *State, mv MapV, key, val Value, mt *types.Map) {
	if mv.obj == 0 {
		panic(goPanic{ex.runtimeErr(st, "assignment to entry in nil map")})
	}
	o := ex.obj(st, mv.obj)
	i := ex.mapFind(st, o.m, key, mt.Key())
	o = st.heap.mut(mv.obj)
	if i >= 0 {
		o.m.ents[i].v = val
		return
	}
	ck, conc := concKey(key)
	if !conc {
		o.m.idx = nil
	} else if o.m.idx != nil {
		o.m.idx[ck] = len(o.m.ents)
	}
	o.m.ents = append(o.m.ents, MapEntry{key, val})
}

func (ex *Exec) mapDelete(st *State, mv MapV, key Value) {
	if mv.obj == 0 {
		return
	}
	o := ex.obj(st, mv.obj)
	i := ex.mapFind(st, o.m, key, nil)
	if i < 0 {
		return
	}
	o = st.heap.mut(mv.obj)
	o.m.ents = append(append([]MapEntry(nil), o.m.ents[:i]...), o.m.ents[i+1:]...)
	o.m.reindex()
}

func (m *MapData) reindex() {
	m.idx = map[string]int{}
	for i, e := range m.ents {
		ck, ok := concKey(e.k)
		if !ok {
			m.idx = nil
			return
		}
		m.idx[ck] = i
	}
}

func (ex *Exec) lookup(st *State, f *Frame, x *ssa.Lookup) {
	v := ex.get(st, f, x.X)
	if s, ok := v.(Str); ok {
		idx := ex.asInt64(ex.get(st, f, x.Index), x.Index.Type()).(*T)
		ex.boundsCheck(st, idx, s.length())
		ex.set(f, x, ex.strIndex(st, s, idx))
		f.idx++
		return
	}
	m, ok := v.(MapV)
	if !ok {
		panic(unsupported(fmt.Sprintf("lookup in %T", v)))
	}
	ex.access(st, m.obj, mapSlot, 1, false)
	key := ex.get(st, f, x.Index)
	mt := x.X.Type().Underlying().(*types.Map)
	r, found := ex.mapGet(st, m, key, mt)
	if x.CommaOk {
		ex.set(f, x, Tup{r, found})
	} else {
		ex.set(f, x, r)
	}
	f.idx++
}

func (ex *Exec) mapGet(st *State, m MapV, key Value, mt *types.Map) (Value, *T) {
	c := ex.ctx
	zero := ex.zero(mt.Elem())
	if m.obj == 0 {
		return zero, c.tFalse
	}
	md := ex.obj(st, m.obj).m
	if _, conc := concKey(key); conc && md.idx != nil {
		i := ex.mapFind(st, md, key, mt.Key())
		if i < 0 {
			return zero, c.tFalse
		}
		return md.ents[i].v, c.tTrue
	}
	// symbolic key: one ite when the values are scalars
	if zt, ok := zero.(*T); ok {
		allT := true
		for _, e := range md.ents {
			if _, ok := e.v.(*T); !ok {
				allT = false
			}
		}
		if allT && (zt.w <= 32) {
			r := zt
			var any []*T
			for i := len(md.ents) - 1; i >= 0; i-- {
				e := md.ents[i]
				q := ex.eq(st, e.k, key, mt.Key())
				any = append(any, q)
				r = c.Ite(q, e.v.(*T), r)
			}
			return r, c.BOr(any...)
		}
	}
	i := ex.mapFind(st, md, key, mt.Key())
	if i < 0 {
		return zero, c.tFalse
	}
	return md.ents[i].v, c.tTrue
}

func (ex *Exec) rangeOp(st *State, f *Frame, x *ssa.Range) {
	v := ex.get(st, f, x.X)
	switch m := v.(type) {
	case Str:
		s := m
		ex.set(f, x, &MapIter{str: &s})
	case MapV:
		ex.access(st, m.obj, mapSlot, 1, false)
		it := &MapIter{m: m.obj}
		if m.obj != 0 {
			for _, e := range ex.obj(st, m.obj).m.ents {
				it.keys = append(it.keys, e.k)
			}
		}
		ex.set(f, x, it)
	default:
		panic(unsupported("range"))
	}
	f.idx++
}

func (ex *Exec) next(st *State, f *Frame, x *ssa.Next) {
	c := ex.ctx
	it := ex.get(st, f, x.Iter).(*MapIter)
	n := *it
	done := func() {
		tt := x.Type().(*types.Tuple)
		var kz, vz Value
		if !types.Identical(tt.At(1).Type(), types.Typ[types.Invalid]) {
			kz = ex.zero(tt.At(1).Type())
		}
		if !types.Identical(tt.At(2).Type(), types.Typ[types.Invalid]) {
			vz = ex.zero(tt.At(2).Type())
		}
		ex.set(f, x, Tup{c.tFalse, kz, vz})
		f.idx++
	}
	if it.str != nil {
		if it.pos >= it.str.length() {
			done()
			return
		}
		ts := ex.strTerms(*it.str)
		r, w := ex.decodeRune(st, ts[it.pos:])
		ex.set(f, x, Tup{c.tTrue, c.Const(uint64(it.pos), 64), r})
		n.pos += w
		f.regs[f.info.idx[x.Iter]] = &n
		f.idx++
		return
	}
	// drop keys deleted during iteration
	md := (*MapData)(nil)
	if it.m != 0 {
		ex.access(st, it.m, mapSlot, 1, false)
		md = ex.obj(st, it.m).m
	}
	var live []Value
	for _, k := range it.keys[it.pos:] {
		if md == nil {
			break
		}
		for _, e := range md.ents {
			if sameKey(e.k, k) {
				live = append(live, k)
				break
			}
		}
	}
	if len(live) == 0 {
		done()
		return
	}
	pick := 0
	if (ex.mapOrder || st.flags["maporder"]) && len(live) > 1 && ex.initing == 0 {
		pick = ex.choose(st, "maporder", len(live))
	}
	key := live[pick]
	rest := append(append([]Value(nil), live[:pick]...), live[pick+1:]...)
	n.keys, n.pos = rest, 0
	var val Value
	for _, e := range md.ents {
		if sameKey(e.k, key) {
			val = e.v
		}
	}
	f.regs[f.info.idx[x.Iter]] = &n
	ex.set(f, x, Tup{c.tTrue, key, val})
	f.idx++
}

func sameKey(a, b Value) bool {
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		if !ok || x.length() != y.length() || (x.t == nil) != (y.t == nil) {
			return false
		}
		if x.t == nil {
			return x.s == y.s
		}
		for i := range x.t {
			if x.t[i] != y.t[i] {
				return false
			}
		}
		return true
	case *T:
		return a == b
	case Ptr, ChanV:
		return a == b
	}
	k1, ok1 := concKey(a)
	k2, ok2 := concKey(b)
	return ok1 && ok2 && k1 == k2
}

// choose forks over 0..n-1 with an environment choice not visible to replay
// inputs (map order, schedule). The decision is recorded through known.
func (ex *Exec) choose(st *State, kind string, n int) int {
	if len(st.choice) > 0 {
		v := st.choice[0]
		st.choice = st.choice[1:]
		if kind != "choose" {
			st.addND("env:"+kind, nil, uint64(v))
		}
		return v
	}
	var sts []*State
	for i := 0; i < n; i++ {
		s := st.clone()
		s.choice = []int{i}
		sts = append(sts, s)
	}
	ex.stats.Forks += int64(n - 1)
	panic(forkSignal{sts})
}

// ---------- channels ----------

func (ex *Exec) wait(st *State, ready func(ex *Exec, st *State) bool) {
	st.g().blocked = ready
}

func (ex *Exec) send(st *State, f *Frame, x *ssa.Send) {
	if !st.g().sent {
		ex.preempt(st)
	}
	ch := ex.get(st, f, x.Chan).(ChanV)
	v := ex.get(st, f, x.X)
	if ch.obj == 0 {
		ex.wait(st, func(*Exec, *State) bool { return false })
		return
	}
	o := ex.obj(st, ch.obj)
	if o.ch.closed {
		panic(goPanic{ex.runtimeErr(st, "send on closed channel")})
	}
	g := st.g()
	if o.ch.cap > 0 {
		if len(o.ch.buf) < o.ch.cap {
			o = st.heap.mut(ch.obj)
			o.ch.buf = append(o.ch.buf, v)
			st.sendClock(o.ch)
			g.passed = false
			f.idx++
			return
		}
		ex.wait(st, func(ex *Exec, st *State) bool {
			c := ex.obj(st, ch.obj).ch
			return c.closed || len(c.buf) < c.cap
		})
		return
	}
	// unbuffered: put the value in the hand-over slot, proceed when it is taken
	if g.sent {
		if !g.taken {
			panic(unsupported("unbuffered send state"))
		}
		g.sent, g.taken, g.passed = false, false, false
		f.idx++
		return
	}
	g.sent = true
	g.taken = false
	g.sendVal = v
	g.sendVC = st.release()
	g.sendCh = ch.obj
	id := g.id
	ex.wait(st, func(ex *Exec, st *State) bool {
		me := st.gs[id]
		return me.taken || ex.obj(st, ch.obj).ch.closed
	})
}

// waitRecv registers the goroutine as one which waits to receive.
func (st *State) waitRecv(recvCh int, sel map[int]bool) {
	g := st.g()
	if g.recvCh == 0 && g.selRecv == nil {
		st.waits++
		g.waitSeq = st.waits
	}
	g.recvCh, g.selRecv = recvCh, sel
}

// handedOver: a value on the channel belongs to the goroutine which waits longest,
// as the runtime hands it over; what is there is for others than me.
func (st *State) handedOver(ch *ChanData, obj, me int) bool {
	n := len(ch.buf)
	for _, g := range st.gs {
		if !g.done && g.sent && !g.taken && g.sendCh == obj {
			n++
		}
	}
	m := st.gs[me]
	waiting := m.recvCh == obj || m.selRecv[obj]
	for i, g := range st.gs {
		if i != me && !g.done && (g.recvCh == obj || g.selRecv[obj]) && (!waiting || g.waitSeq < m.waitSeq) {
			n--
		}
	}
	return n <= 0
}

// tryRecv takes a value if one is available.
func (ex *Exec) tryRecv(st *State, ch ChanV, elem types.Type) (v Value, ok *T, got bool) {
	if !ex.canRecv(st, ch, st.cur) {
		return nil, nil, false
	}
	o := ex.obj(st, ch.obj)
	if len(o.ch.buf) > 0 {
		o = st.heap.mut(ch.obj)
		v = o.ch.buf[0]
		o.ch.buf = append([]Value(nil), o.ch.buf[1:]...)
		st.recvClock(o.ch)
		return v, ex.ctx.tTrue, true
	}
	for _, g := range st.gs {
		if !g.done && g.sent && !g.taken && g.sendCh == ch.obj {
			g.taken = true
			if st.race {
				v := st.release()
				st.acquire(g.sendVC)
				g.vc = g.vc.join(v)
			}
			return g.sendVal, ex.ctx.tTrue, true
		}
	}
	if o.ch.closed {
		st.acquire(o.ch.cvc)
		return ex.zero(elem), ex.ctx.tFalse, true
	}
	return nil, nil, false
}

func (ex *Exec) canRecv(st *State, ch ChanV, me int) bool {
	if ch.obj == 0 {
		return false
	}
	o := ex.obj(st, ch.obj)
	if o.ch.closed {
		return true
	}
	if st.handedOver(o.ch, ch.obj, me) {
		return false
	}
	if len(o.ch.buf) > 0 {
		return true
	}
	for _, g := range st.gs {
		if !g.done && g.sent && !g.taken && g.sendCh == ch.obj {
			return true
		}
	}
	return false
}

func (ex *Exec) recv(st *State, f *Frame, x *ssa.UnOp, ch ChanV) {
	if ch.obj == 0 {
		ex.wait(st, func(*Exec, *State) bool { return false })
		return
	}
	ex.preempt(st)
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	v, ok, got := ex.tryRecv(st, ch, et)
	if !got {
		st.waitRecv(ch.obj, nil)
		me := st.cur
		ex.wait(st, func(ex *Exec, st *State) bool { return ex.canRecv(st, ch, me) })
		return
	}
	st.g().recvCh = 0
	st.g().passed = false
	if x.CommaOk {
		ex.set(f, x, Tup{v, ok})
	} else {
		ex.set(f, x, v)
	}
	f.idx++
}

func (ex *Exec) canSend(st *State, ch ChanV) bool {
	if ch.obj == 0 {
		return false
	}
	c := ex.obj(st, ch.obj).ch
	if c.closed {
		return true
	}
	if c.cap > 0 {
		return len(c.buf) < c.cap
	}
	// unbuffered: a receiver must be waiting
	for i, g := range st.gs {
		if i != st.cur && !g.done && g.blocked != nil && (g.recvCh == ch.obj || g.selRecv[ch.obj]) {
			return true
		}
	}
	return false
}

func (ex *Exec) selectOp(st *State, f *Frame, x *ssa.Select) {
	type cs struct {
		ch   ChanV
		send bool
		v    Value
	}
	var cases []cs
	for _, s := range x.States {
		c := cs{ch: ex.get(st, f, s.Chan).(ChanV), send: s.Dir == types.SendOnly}
		if c.send {
			c.v = ex.get(st, f, s.Send)
		}
		cases = append(cases, c)
	}
	me := st.cur
	ready := func(ex *Exec, st *State) []int {
		var out []int
		for i, c := range cases {
			if c.send && ex.canSend(st, c.ch) || !c.send && ex.canRecv(st, c.ch, me) {
				out = append(out, i)
			}
		}
		return out
	}
	if x.Blocking {
		ex.preempt(st)
	}
	r := ready(ex, st)
	pick := -1
	if len(r) > 0 {
		pick = r[ex.chooseReady(st, len(r))]
	} else if x.Blocking {
		sel := map[int]bool{}
		for _, c := range cases {
			if !c.send {
				sel[c.ch.obj] = true
			}
		}
		st.waitRecv(0, sel)
		ex.wait(st, func(ex *Exec, st *State) bool { return len(ready(ex, st)) > 0 })
		return
	}
	st.g().selRecv = nil
	st.g().passed = false
	// result tuple: index, recvOk, values...
	res := Tup{ex.ctx.Const(uint64(int64(pick)), 64), ex.ctx.tFalse}
	for i, s := range x.States {
		if s.Dir == types.SendOnly {
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if i == pick {
			v, ok, _ := ex.tryRecv(st, cases[i].ch, et)
			res[1] = ok
			res = append(res, v)
		} else {
			res = append(res, ex.zero(et))
		}
	}
	if pick >= 0 && cases[pick].send {
		c := cases[pick]
		o := ex.obj(st, c.ch.obj)
		if o.ch.closed {
			panic(goPanic{ex.runtimeErr(st, "send on closed channel")})
		}
		o = st.heap.mut(c.ch.obj)
		o.ch.buf = append(o.ch.buf, c.v) // an unbuffered receiver is waiting for it
		if st.race && o.ch.cap == 0 {
			for i, r := range st.gs {
				if i != st.cur && !r.done && r.blocked != nil && (r.recvCh == c.ch.obj || r.selRecv[c.ch.obj]) {
					st.acquire(r.vc)
					break
				}
			}
		}
		st.sendClock(o.ch)
	}
	ex.set(f, x, res)
	f.idx++
}

func (ex *Exec) strIndex(st *State, s Str, idx *T) Value {
	if s.t == nil && idx.hi < 16 && len(s.s) == 16 && !idx.isConst() {
		switch s.s {
		case "0123456789abcdef":
			return ex.ctx.hexChar(ex.ctx.Extract(idx, 0, 4), false)
		case "0123456789ABCDEF":
			return ex.ctx.hexChar(ex.ctx.Extract(idx, 0, 4), true)
		}
	}
	ts := ex.strTerms(s)
	return ex.selectElem(st, idx, len(ts), func(i int) Value { return ts[i] })
}
