package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// mergeAll merges mutually exclusive states that stand at the same point.
// base is the path condition at the fork, start the first object id allocated since.
func (ex *Exec) mergeAll(sts []*State, base *PC, start int) []*State {
	if len(sts) < 2 {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := ex.shapeKey(s)
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		out = append(out, ex.mergeGroup(groups[k], start)...)
	}
	return out
}

func (ex *Exec) mergeGroup(g []*State, start int) []*State {
	if len(g) < 2 || g[0].top().panicV != nil {
		return g
	}
	type bad struct{ a, b *State }
	failed := map[bad]bool{}
	for len(g) > 1 {
		// pick the pair with the deepest common prefix
		bi, bj, bd := -1, -1, -1
		if len(g) <= 40 {
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if failed[bad{g[i], g[j]}] {
						continue
					}
					if d := lcpDepth(g[i].pc, g[j].pc); d > bd {
						bi, bj, bd = i, j, d
					}
				}
			}
		} else {
			for i := 0; i+1 < len(g); i++ {
				if failed[bad{g[i], g[i+1]}] {
					continue
				}
				if d := lcpDepth(g[i].pc, g[i+1].pc); d > bd {
					bi, bj, bd = i, i+1, d
				}
			}
		}
		if bi < 0 {
			break
		}
		m := ex.merge2(g[bi], g[bj], start)
		if m == nil {
			ex.stats.MergeFail++
			failed[bad{g[bi], g[bj]}] = true
			continue
		}
		ex.stats.Merges++
		g[bi] = m
		g = append(append([]*State(nil), g[:bj]...), g[bj+1:]...)
	}
	return g
}

func pcDepth(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}

func lcp(a, b *PC) *PC {
	for pcDepth(a) > pcDepth(b) {
		a = a.parent
	}
	for pcDepth(b) > pcDepth(a) {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

func lcpDepth(a, b *PC) int { return pcDepth(lcp(a, b)) }

func litsAfter(p, base *PC) []*T {
	var out []*T
	for ; p != base; p = p.parent {
		out = append(out, p.lit)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// shapeKey: cheap signature so that only plausible merges are tried.
func (ex *Exec) shapeKey(st *State) string {
	g := st.g()
	if len(st.gs) != 1 || len(g.frames) == 0 {
		return fmt.Sprintf("x%p", st)
	}
	f := g.top()
	k := fmt.Sprintf("%d/%d/%d/%v/%d/", len(g.frames), f.block.Index, f.idx, f.panicV != nil, len(f.defers))
	if st.nd != nil {
		k += fmt.Sprintf("n%d/", st.nd.depth)
	}
	if st.obs != nil {
		k += fmt.Sprintf("o%d/", st.obs.depth)
	}
	live := ex.liveAt(f)
	for i, r := range f.regs {
		if live != nil && !live.has(i) {
			continue
		}
		switch x := r.(type) {
		case Str:
			k += fmt.Sprintf("%d:s%d,", i, x.length())
		case Slice:
			k += fmt.Sprintf("%d:l%d,", i, x.len)
		case Iface:
			if x.t == nil {
				k += "i0,"
			} else {
				k += x.t.String() + ","
			}
		case *T:
			if x.isConst() && x.w == 64 {
				k += fmt.Sprintf("%d:c%d,", i, x.c)
			}
		case Tup:
			for j, e := range x {
				switch y := e.(type) {
				case Str:
					k += fmt.Sprintf("%d.%d:s%d,", i, j, y.length())
				case Slice:
					k += fmt.Sprintf("%d.%d:l%d,", i, j, y.len)
				case Iface:
					if y.t == nil {
						k += "i0,"
					} else {
						k += y.t.String() + ","
					}
				}
			}
		}
	}
	return k
}

// liveAt returns the live registers of a frame that stands at a block start or
// right after a call; nil means all.
func (ex *Exec) liveAt(f *Frame) bitset {
	fi := f.info
	b := f.block
	if f.idx == fi.phis[b.Index] {
		if b.Index < len(fi.liveIn) {
			return fi.liveIn[b.Index]
		}
		return nil
	}
	// walk backwards from the block end
	live := newBits(fi.nreg + 1)
	for _, s := range b.Succs {
		live.or(fi.liveIn[s.Index])
		for _, in := range s.Instrs[:fi.phis[s.Index]] {
			live.clr(fi.idx[in.(ssaValue)])
		}
	}
	for _, s := range b.Succs {
		for pi, p := range s.Preds {
			if p != b {
				continue
			}
			for _, in := range s.Instrs[:fi.phis[s.Index]] {
				if j, ok := fi.idx[phiEdge(in, pi)]; ok {
					live.set(j)
				}
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= f.idx; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssaValue); ok {
			live.clr(fi.idx[v])
		}
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if k, ok := fi.idx[*op]; ok {
				live.set(k)
			}
		}
	}
	if f.fn.Recover != nil {
		for i := range fi.liveIn[0] {
			_ = i
		}
		for _, in := range f.fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := fi.idx[*op]; ok {
					live.set(k)
				}
			}
		}
	}
	return live
}

type merger struct {
	ex      *Exec
	a, b    *State
	guard   *T
	start   int
	fwd     map[int]int // b's new object -> a's new object
	bwd     map[int]int
	queue   [][2]int
	factsA  []*T
	factsB  []*T
	why     string
	clipped map[int]int
	refs    map[int]int
}

func (m *merger) fail(why string) bool {
	m.why = why
	return false
}

func (ex *Exec) merge2(a, b *State, start int) *State {
	if len(a.gs) != 1 || len(b.gs) != 1 {
		return nil
	}
	fa, fb := a.top(), b.top()
	if len(a.gs[0].frames) != len(b.gs[0].frames) || fa.fn != fb.fn || fa.block != fb.block || fa.idx != fb.idx || fa.panicV != nil || fb.panicV != nil || fa.unwound || fb.unwound {
		return nil
	}
	if a.nd != b.nd || a.obs != b.obs || len(a.choice)+len(b.choice) > 0 {
		return nil
	}
	for k := range a.flags {
		if !strings.HasPrefix(k, initKey) && a.flags[k] != b.flags[k] {
			return nil
		}
	}
	for k := range b.flags {
		if a.flags[k] != b.flags[k] && !strings.HasPrefix(k, initKey) {
			return nil
		}
	}
	p := lcp(a.pc, b.pc)
	la, lb := litsAfter(a.pc, p), litsAfter(b.pc, p)
	var guard *T
	if len(la) > 0 && len(lb) > 0 && la[0] == ex.ctx.Not(lb[0]) {
		guard = la[0]
	} else {
		guard = ex.ctx.BAnd(la...)
	}
	m := &merger{ex: ex, a: a, b: b, guard: guard, start: start, fwd: map[int]int{}, bwd: map[int]int{}, factsA: la, factsB: lb}
	n := a.clone()
	// callee frames below the top are untouched by the region except the top frame
	nf := n.top()
	live := ex.liveAt(fa)
	for i := range fa.regs {
		if live != nil && !live.has(i) {
			nf.regs[i] = nil
			continue
		}
		v, ok := m.val(fa.regs[i], fb.regs[i])
		if !ok {
			if ex.trace && os.Getenv("VP_MERGE") != "" {
				fmt.Fprintf(os.Stderr, "merge fail %s b%d: reg %d %s: %s | %s\n", fa.fn, fa.block.Index, i, m.why, ex.show(fa.regs[i]), ex.show(fb.regs[i]))
			}
			return nil
		}
		nf.regs[i] = v
	}
	if len(fa.defers) != len(fb.defers) {
		return nil
	}
	for i := range fa.defers {
		for j := range fa.defers[i].args {
			if !same(fa.defers[i].args[j], fb.defers[i].args[j]) {
				return nil
			}
		}
	}
	for k, v := range fb.loops {
		if nf.loops == nil {
			nf.loops = map[*ssaBlock]int{}
		}
		if nf.loops[k] < v {
			nf.loops[k] = v
		}
	}
	// objects that existed before the fork and differ
	np := len(a.heap.pages)
	if len(b.heap.pages) > np {
		np = len(b.heap.pages)
	}
	for pi := 0; pi < np; pi++ {
		var pa, pb *page
		if pi < len(a.heap.pages) {
			pa = a.heap.pages[pi]
		}
		if pi < len(b.heap.pages) {
			pb = b.heap.pages[pi]
		}
		if pa == pb {
			continue
		}
		for k := 0; k < pageSize; k++ {
			id := pi*pageSize + k
			if id >= start {
				break
			}
			var oa, ob *Obj
			if pa != nil {
				oa = pa.o[k]
			}
			if pb != nil {
				ob = pb.o[k]
			}
			if oa == ob {
				continue
			}
			if oa == nil || ob == nil {
				// lazily materialised global: the other side has its zero value
				if oa == nil {
					oa = ex.obj(a, id)
				} else {
					ob = ex.obj(b, id)
				}
				ex.obj(n, id)
			}
			if !m.objects(n, id, oa, ob) {
				if ex.trace && os.Getenv("VP_MERGE") != "" {
					fmt.Fprintf(os.Stderr, "merge fail %s b%d: object %d %v: %s\n", fa.fn, fa.block.Index, id, oa.typ, m.why)
				}
				return nil
			}
		}
	}
	for len(m.queue) > 0 {
		q := m.queue[0]
		m.queue = m.queue[1:]
		oa, ob := a.heap.get(q[0]), b.heap.get(q[1])
		if oa == nil || ob == nil {
			return nil
		}
		if !m.objects(n, q[0], oa, ob) {
			if ex.trace && os.Getenv("VP_MERGE") != "" {
				fmt.Fprintf(os.Stderr, "merge fail %s b%d: new object %v: %s\n", fa.fn, fa.block.Index, oa.typ, m.why)
			}
			return nil
		}
	}
	for id := range m.clipped {
		if m.refs[id] != 1 {
			return nil
		}
	}
	n.pc = p
	cond := ex.ctx.BOr(ex.ctx.BAnd(la...), ex.ctx.BAnd(lb...))
	n.ev = a.ev
	if n.ev == nil {
		n.ev = b.ev
	}
	n.addPC(cond)
	n.known = commonKnown(a.known, b.known)
	if b.nextObj > n.nextObj {
		n.nextObj = b.nextObj
	}
	if b.seq > n.seq {
		n.seq = b.seq
	}
	if b.clock > n.clock {
		n.clock = b.clock
	}
	for k, v := range b.flags {
		if n.flags == nil {
			n.flags = map[string]bool{}
		}
		n.flags[k] = v
	}
	return n
}

func commonKnown(a, b *Known) *Known {
	set := map[*Known]bool{}
	for k := a; k != nil; k = k.parent {
		set[k] = true
	}
	for k := b; k != nil; k = k.parent {
		if set[k] {
			return k
		}
	}
	return nil
}

// objects merges the contents of oa and ob into object id of n.
func (m *merger) objects(n *State, id int, oa, ob *Obj) bool {
	if oa == ob {
		return true
	}
	cut, clipped := m.clipped[id]
	if !clipped && len(oa.slots) != len(ob.slots) {
		return m.fail("object sizes differ")
	}
	if (oa.m == nil) != (ob.m == nil) || (oa.ch == nil) != (ob.ch == nil) || oa.gob != ob.gob {
		return m.fail("object kinds differ")
	}
	if oa.typ != nil && ob.typ != nil && oa.typ != ob.typ && !types.Identical(oa.typ, ob.typ) {
		return m.fail("object types differ")
	}
	no := n.heap.mut(id)
	if clipped {
		if len(oa.slots) < cut || len(ob.slots) < cut {
			return m.fail("clipped slice")
		}
		no.slots = append([]Value(nil), no.slots[:cut]...)
	}
	for i := range no.slots {
		v, ok := m.val(oa.slots[i], ob.slots[i])
		if !ok {
			return false
		}
		no.slots[i] = v
	}
	if oa.m != nil {
		if len(oa.m.ents) != len(ob.m.ents) {
			return m.fail("map sizes differ")
		}
		for i := range oa.m.ents {
			if !sameKey(oa.m.ents[i].k, ob.m.ents[i].k) {
				return m.fail("map keys differ")
			}
			v, ok := m.val(oa.m.ents[i].v, ob.m.ents[i].v)
			if !ok {
				return false
			}
			no.m.ents[i].v = v
		}
	}
	if oa.ch != nil {
		if len(oa.ch.buf) != len(ob.ch.buf) || oa.ch.closed != ob.ch.closed {
			return m.fail("channels differ")
		}
		for i := range oa.ch.buf {
			v, ok := m.val(oa.ch.buf[i], ob.ch.buf[i])
			if !ok {
				return false
			}
			no.ch.buf[i] = v
		}
	}
	return true
}

func (m *merger) ref(a, b int) bool {
	if a == 0 || b == 0 {
		return a == b
	}
	na, nb := a >= m.start, b >= m.start
	if na != nb {
		return false
	}
	if !na {
		return a == b
	}
	if m.refs == nil {
		m.refs = map[int]int{}
	}
	m.refs[a]++
	if x, ok := m.fwd[b]; ok {
		return x == a
	}
	if _, ok := m.bwd[a]; ok {
		return false
	}
	m.fwd[b] = a
	m.bwd[a] = b
	m.queue = append(m.queue, [2]int{a, b})
	return true
}

// bitStrings: the strings differ in bits (or wildcards) only; those are data,
// other texts rather names which decide what happens next.
func bitStrings(a, b string) bool {
	for i := range len(a) {
		if a[i] != b[i] && (!strings.ContainsRune("01x", rune(a[i])) || !strings.ContainsRune("01x", rune(b[i]))) {
			return false
		}
	}
	return true
}

// val merges two values; the result is expressed in a's object names.
func (m *merger) val(a, b Value) (Value, bool) {
	ex := m.ex
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil, true
		}
		return nil, m.fail("nil vs value")
	case *T:
		y, ok := b.(*T)
		if !ok || x.w != y.w {
			return nil, m.fail("kind")
		}
		if x == y {
			return x, true
		}
		if x.w == 64 && x.isConst() && y.isConst() && !ex.mergeInts {
			return nil, m.fail("different integer constants")
		}
		if r := m.semantic(x, y); r != nil {
			return r, true
		}
		return ex.ctx.Ite(m.guard, x, y), true
	case Str:
		y, ok := b.(Str)
		if !ok || x.length() != y.length() {
			return nil, m.fail("string lengths differ")
		}
		if x.t == nil && y.t == nil {
			if x.s == y.s {
				return x, true
			}
			if !bitStrings(x.s, y.s) {
				return nil, m.fail("different concrete strings")
			}
		}
		tx, ty := ex.strTerms(x), ex.strTerms(y)
		out := make([]*T, len(tx))
		for i := range tx {
			if tx[i] == ty[i] {
				out[i] = tx[i]
			} else if r := m.semantic(tx[i], ty[i]); r != nil {
				out[i] = r
			} else {
				out[i] = ex.ctx.Ite(m.guard, tx[i], ty[i])
			}
		}
		return mkStr(out), true
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.len != y.len || x.off != y.off || x.es != y.es {
			return nil, m.fail("slices differ")
		}
		if !m.ref(x.obj, y.obj) {
			return nil, m.fail("slice objects")
		}
		if x.cap != y.cap {
			// different spare capacity: the smaller one is kept when nothing else
			// refers to the array
			if x.obj < m.start || x.off != 0 {
				return nil, m.fail("slice capacities")
			}
			if y.cap < x.cap {
				x.cap = y.cap
			}
			if m.clipped == nil {
				m.clipped = map[int]int{}
			}
			m.clipped[x.obj] = x.cap * x.es
		}
		return x, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || x.off != y.off || !m.ref(x.obj, y.obj) {
			return nil, m.fail("pointers")
		}
		return x, true
	case SymPtr:
		y, ok := b.(SymPtr)
		if ok && x == y {
			return x, true
		}
		return nil, m.fail("symptr")
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, m.fail("kind")
		}
		if x.t == nil && y.t == nil {
			return x, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, m.fail("dynamic types differ")
		}
		v, ok := m.val(x.v, y.v)
		if !ok {
			return nil, false
		}
		return Iface{x.t, v}, true
	case Fn:
		y, ok := b.(Fn)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return nil, m.fail("functions")
		}
		nb := make([]Value, len(x.bind))
		for i := range x.bind {
			v, ok := m.val(x.bind[i], y.bind[i])
			if !ok {
				return nil, false
			}
			nb[i] = v
		}
		return Fn{x.fn, nb}, true
	case MapV:
		y, ok := b.(MapV)
		if !ok || !m.ref(x.obj, y.obj) {
			return nil, m.fail("maps")
		}
		return x, true
	case ChanV:
		y, ok := b.(ChanV)
		if !ok || !m.ref(x.obj, y.obj) {
			return nil, m.fail("chans")
		}
		return x, true
	case Flt:
		y, ok := b.(Flt)
		if !ok {
			return nil, m.fail("kind")
		}
		if x == y {
			return x, true
		}
		p, ok1 := ex.fltInt(x)
		q, ok2 := ex.fltInt(y)
		if !ok1 || !ok2 {
			return nil, m.fail("floats")
		}
		return Flt{t: ex.ctx.Ite(m.guard, p, q)}, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, m.fail("aggregates")
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := m.val(x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Tup:
		y, ok := b.(Tup)
		if !ok || len(x) != len(y) {
			return nil, m.fail("tuples")
		}
		out := make(Tup, len(x))
		for i := range x {
			v, ok := m.val(x[i], y[i])
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case BigV:
		y, ok := b.(BigV)
		if !ok || x.neg != y.neg {
			return nil, m.fail("big")
		}
		if x.mag == y.mag {
			return x, true
		}
		return BigV{x.neg, ex.ctx.Ite(m.guard, x.mag, y.mag)}, true
	case Opaque:
		if _, ok := b.(Opaque); ok {
			return x, true
		}
		return nil, m.fail("opaque")
	case *MapIter:
		y, ok := b.(*MapIter)
		if !ok || x.m != y.m || x.pos != y.pos || len(x.keys) != len(y.keys) || (x.str == nil) != (y.str == nil) {
			return nil, m.fail("iterators")
		}
		for i := range x.keys {
			if !sameKey(x.keys[i], y.keys[i]) {
				return nil, m.fail("iterators")
			}
		}
		if x.str != nil && !same(*x.str, *y.str) {
			return nil, m.fail("iterators")
		}
		return x, true
	}
	if same(a, b) {
		return a, true
	}
	return nil, m.fail(fmt.Sprintf("kind %T", a))
}

func same(a, b Value) bool {
	switch x := a.(type) {
	case Str:
		y, ok := b.(Str)
		return ok && sameKey(x, y)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tup:
		y, ok := b.(Tup)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && same(x.v, y.v)
	case Fn:
		y, ok := b.(Fn)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !same(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *T, Ptr, Slice, MapV, ChanV, BigV, Opaque, Flt, nil, *MapIter, SymPtr:
		return a == b
	}
	return false
}

// semantic picks x or y when, under the other side's condition, they coincide.
func (m *merger) semantic(x, y *T) *T {
	if x.w == 0 {
		return nil
	}
	if r := m.ex.under(m.factsA, y); r == x {
		return y
	}
	if r := m.ex.under(m.factsB, x); r == y {
		return x
	}
	return nil
}

// digitsUnder replaces decimal digits that are zero because the number is small.
func (ex *Exec) digitsUnder(facts []*T, t *T) *T {
	ps := ex.ctx.piecesOf(t)
	any := false
	for _, p := range ps {
		if p.a != nil && p.a.op == ODigit {
			any = true
		}
	}
	if !any {
		return t
	}
	var out []Piece
	changed := false
	for _, p := range ps {
		if p.a != nil && p.a.op == ODigit {
			v := p.a.args[0]
			for _, l := range facts {
				if l.op == OUlt && l.args[0] == v && l.args[1].isConst() && p.a.c < 20 && pow10[p.a.c] >= l.args[1].c {
					p = Piece{nil, 0, p.w, 0}
					changed = true
					break
				}
			}
		}
		out = append(out, p)
	}
	if !changed {
		return t
	}
	return ex.ctx.mkCat(out)
}

// under rewrites t using facts of the form extract(atom)=const.
func (ex *Exec) under(facts []*T, t *T) *T {
	if t.op != OCat && t.op != OVar && t.op != OLin && t.op != ODigit {
		return t
	}
	t = ex.digitsUnder(facts, t)
	if t.isConst() {
		return t
	}
	ps := ex.ctx.piecesOf(t)
	type fact struct {
		p Piece
		c uint64
	}
	fs := map[*T][]fact{}
	for _, l := range facts {
		neg := false
		if l.op == ONot {
			neg = true
			l = l.args[0]
		}
		if l.op != OEq || !l.args[1].isConst() {
			continue
		}
		for _, q := range ex.ctx.piecesOf(l.args[0]) {
			if q.a == nil || len(ex.ctx.piecesOf(l.args[0])) > 2 {
				continue
			}
			cv := l.args[1].c & mask(q.w)
			if neg {
				if l.args[0].w != 1 {
					continue
				}
				cv ^= 1
			}
			fs[q.a] = append(fs[q.a], fact{q, cv})
			break
		}
	}
	if len(fs) == 0 {
		return t
	}
	var out []Piece
	changed := false
	for _, p := range ps {
		if p.a == nil || fs[p.a] == nil {
			out = append(out, p)
			continue
		}
		// bitwise substitution
		for i := 0; i < p.w; i++ {
			b := Piece{p.a, p.lo + i, 1, 0}
			for _, f := range fs[p.a] {
				if b.lo >= f.p.lo && b.lo < f.p.lo+f.p.w {
					b = Piece{nil, 0, 1, f.c >> uint(b.lo-f.p.lo) & 1}
					changed = true
					break
				}
			}
			out = append(out, b)
		}
	}
	if !changed {
		return t
	}
	return ex.ctx.mkCat(out)
}

var _ = sort.Ints
