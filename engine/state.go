package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- values ----------

type Value interface{}

// Str is a Go string of known length; t==nil means fully concrete.
type Str struct {
	s string
	t []*T
}

type Slice struct {
	obj           int
	off, len, cap int
	es            int
}

type Ptr struct {
	obj int
	off int
}

// SymPtr: pointer into an array at a symbolic element (only loaded through).
type SymPtr struct {
	base Ptr
	idx  *T
	n    int
	es   int
}

type Iface struct {
	t types.Type
	v Value
}

type Fn struct {
	fn   *ssa.Function
	bind []Value
}

type MapV struct{ obj int }
type ChanV struct{ obj int }
type Agg []Value
type Tup []Value

// Flt is a float: either concrete, or an exact integer held in a signed 64-bit term
// below 2^53, or the rounded quotient of such a term by the integer d > 1, which is
// only truncated (the truncation of the rounded quotient is the integer quotient).
type Flt struct {
	c      float64
	t      *T
	d      uint64
	cn, cd uint64 // c is the rounded quotient of these (cd > 0)
	q      *T     // the rounded quotient of t by q > 1, which is only compared; both below 2^52
	e      *FltExpr
}

func (f Flt) sym() bool { return f.t != nil || f.e != nil }

// FltExpr is a float computed from symbolic ones by an operation without a model.
type FltExpr struct {
	op   token.Token
	x, y Flt
}

func fltEqual(a, b Flt) bool {
	if (a.e == nil) != (b.e == nil) {
		return false
	}
	if a.e != nil {
		return a.e.op == b.e.op && fltEqual(a.e.x, b.e.x) && fltEqual(a.e.y, b.e.y)
	}
	return a.c == b.c && a.t == b.t && a.d == b.d && a.q == b.q
}

// fltAt is the value of f where its terms have the values val gives.
func fltAt(f Flt, val func(*T) uint64) float64 {
	switch {
	case f.e != nil:
		x, y := fltAt(f.e.x, val), fltAt(f.e.y, val)
		switch f.e.op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		}
		return x / y
	case f.t == nil:
		return f.c
	}
	x := float64(int64(val(f.t)))
	if f.d != 0 {
		x /= float64(f.d)
	}
	if f.q != nil {
		x /= float64(int64(val(f.q)))
	}
	return x
}

// Opaque stands for a value the engine does not model; using it in a decision
// makes the path incomplete.
type Opaque struct{ why string }

// BigV is the content of a math/big.Int: sign concrete, magnitude a term <= 64 bits.
type BigV struct {
	neg bool
	mag *T
}

// MapIter: iterator of range over a map or string
type MapIter struct {
	m    int
	keys []Value
	pos  int
	str  *Str
	sym  bool
}

func (s Str) length() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.s)
}

type owner struct{ _ int }

type MapEntry struct {
	k, v Value
}

type MapData struct {
	ents []MapEntry
	idx  map[string]int // concrete keys -> position, nil when any key is symbolic
}

type ChanData struct {
	bvc, rvc []VC // clocks: of what is in buf, of who made room in it
	cvc      VC   // of who closed it
	nsent    int
	buf      []Value
	cap      int
	closed   bool
	// waiting senders on unbuffered/full channels: goroutine ids
	tick bool // environment channel that may always deliver
}

type Obj struct {
	slots []Value
	own   *owner
	m     *MapData
	ch    *ChanData
	typ   types.Type
	gob   *gobBuf
	sh    map[int]cell // accesses, see race.go
}

const pageSize = 128

type page struct {
	o   [pageSize]*Obj
	own *owner
}

type Heap struct {
	pages []*page
	own   *owner
}

func (h *Heap) get(id int) *Obj {
	p := id / pageSize
	if p >= len(h.pages) || h.pages[p] == nil {
		return nil
	}
	return h.pages[p].o[id%pageSize]
}

func (h *Heap) set(id int, o *Obj) {
	p := id / pageSize
	for p >= len(h.pages) {
		h.pages = append(h.pages, nil)
	}
	pg := h.pages[p]
	if pg == nil {
		pg = &page{own: h.own}
		h.pages[p] = pg
	} else if pg.own != h.own {
		np := &page{o: pg.o, own: h.own}
		pg = np
		h.pages[p] = pg
	}
	pg.o[id%pageSize] = o
}

// clone gives both copies fresh ownership tokens
func (h *Heap) clone() Heap {
	n := Heap{pages: append([]*page(nil), h.pages...), own: &owner{}}
	h.own = &owner{}
	return n
}

func (h *Heap) mut(id int) *Obj {
	o := h.get(id)
	if o == nil {
		panic(fmt.Sprintf("mut of missing object %d", id))
	}
	if o.own == h.own {
		return o
	}
	n := &Obj{slots: append([]Value(nil), o.slots...), own: h.own, typ: o.typ, gob: o.gob}
	if o.m != nil {
		n.m = &MapData{ents: append([]MapEntry(nil), o.m.ents...)}
		if o.m.idx != nil {
			n.m.idx = make(map[string]int, len(o.m.idx))
			for k, v := range o.m.idx {
				n.m.idx[k] = v
			}
		}
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Value(nil), o.ch.buf...)
		c.bvc = append([]VC(nil), o.ch.bvc...)
		c.rvc = append([]VC(nil), o.ch.rvc...)
		n.ch = &c
	}
	if o.sh != nil {
		n.sh = make(map[int]cell, len(o.sh))
		for k, v := range o.sh {
			n.sh[k] = v
		}
	}
	h.set(id, n)
	return n
}

// ---------- path condition ----------

type PC struct {
	lit    *T
	parent *PC
	depth  int
}

type ND struct {
	kind   string
	t      *T     // symbolic value
	c      uint64 // concrete choice when t==nil
	parent *ND
	depth  int
}

type Obs struct {
	label  string
	v      Value
	parent *Obs
	depth  int
}

type Known struct {
	t      *T
	v      uint64
	parent *Known
}

// ---------- frames ----------

type deferred struct {
	fn   Value // Fn, or nil with builtin
	call *ssa.CallCommon
	args []Value
}

type Frame struct {
	fn       *ssa.Function
	info     *FnInfo
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	idx      int
	regs     []Value
	bind     []Value
	defers   []deferred
	dest     ssa.Value // register of the caller to be set on return (nil: none)
	onRet    func(ex *Exec, st *State, ret Value)
	panicV   *Value // non-nil while panicking through this frame
	recov    bool   // the current panic was recovered
	isDefer  bool   // this frame is a deferred call run by the frame below
	inPanic  bool   // deferred call run because the frame below panics
	noRet    bool   // result is discarded
	loops    map[*ssa.BasicBlock]int
	retVal   Value
	unwound  bool
	mergeTop bool
}

type Gor struct {
	frames                       []*Frame
	blocked                      func(ex *Exec, st *State) bool // non-nil: returns true when it may proceed
	done                         bool
	id                           int
	sendVal                      Value
	sent, taken                  bool
	sendCh, recvCh               int
	selRecv                      map[int]bool
	asleep, slept, waitW, settle bool
	waitSeq                      int // since when it waits to receive
	vc, sendVC                   VC
	passed                       bool // the schedule point of the current operation is behind
}

// Turn is a departure of a schedule from round robin.
type Turn struct {
	parent *Turn
	what   string
}

type State struct {
	gs      []*Gor
	cur     int
	heap    Heap
	pc      *PC
	ev      *evaluator // a model of pc, nil when unknown
	nd      *ND
	obs     *Obs
	known   *Known
	nextObj int
	steps   int
	seq     int // variable counter
	waits   int // counts waitSeq
	turns   *Turn

	flags    map[string]bool
	clock    int
	exited   bool
	reachN   int
	choice   []int
	now      *T
	timers   []timer
	devs     int
	advances int
	race     bool // see race.go
	syncs    map[syncKey]VC
}

func (g *Gor) top() *Frame { return g.frames[len(g.frames)-1] }

func (st *State) g() *Gor     { return st.gs[st.cur] }
func (st *State) top() *Frame { g := st.gs[st.cur]; return g.frames[len(g.frames)-1] }

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	if f.loops != nil {
		n.loops = make(map[*ssa.BasicBlock]int, len(f.loops))
		for k, v := range f.loops {
			n.loops[k] = v
		}
	}
	if f.panicV != nil {
		pv := *f.panicV
		n.panicV = &pv
	}
	return &n
}

func (st *State) clone() *State {
	n := *st
	n.heap = st.heap.clone()
	n.gs = make([]*Gor, len(st.gs))
	for i, g := range st.gs {
		ng := *g
		ng.frames = make([]*Frame, len(g.frames))
		for j, f := range g.frames {
			ng.frames[j] = f.clone()
		}
		n.gs[i] = &ng
	}
	if st.flags != nil {
		n.flags = make(map[string]bool, len(st.flags))
		for k, v := range st.flags {
			n.flags[k] = v
		}
	}
	return &n
}

func (st *State) addPC(l *T) {
	if l.op == OTrue {
		return
	}
	if l.op == OBAnd {
		for _, a := range l.args {
			st.addPC(a)
		}
		return
	}
	d := 1
	if st.pc != nil {
		d = st.pc.depth + 1
	}
	st.pc = &PC{lit: l, parent: st.pc, depth: d}
	if st.ev != nil && st.ev.eval(l) != 1 {
		st.ev = nil
	}
}

func (st *State) lits() []*T {
	var out []*T
	for p := st.pc; p != nil; p = p.parent {
		out = append(out, p.lit)
	}
	return out
}

func (st *State) alloc(slots []Value, typ types.Type) int {
	id := st.nextObj
	st.nextObj++
	st.heap.set(id, &Obj{slots: slots, own: st.heap.own, typ: typ})
	return id
}

// ---------- layout ----------

func underlying(t types.Type) types.Type { return t.Underlying() }

type layoutCache struct {
	size map[types.Type]int
	offs map[*types.Struct][]int
}

func newLayout() *layoutCache {
	return &layoutCache{map[types.Type]int{}, map[*types.Struct][]int{}}
}

func (l *layoutCache) sizeof(t types.Type) int {
	if n, ok := l.size[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += l.sizeof(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * l.sizeof(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	l.size[t] = n
	return n
}

func (l *layoutCache) fieldOff(s *types.Struct, i int) int {
	o, ok := l.offs[s]
	if !ok {
		n := 0
		for j := 0; j < s.NumFields(); j++ {
			o = append(o, n)
			n += l.sizeof(s.Field(j).Type())
		}
		l.offs[s] = o
	}
	return o[i]
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func intWidth(b *types.Basic) (w int, signed bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) zeroSlots(t types.Type) []Value {
	var out []Value
	ex.appendZero(&out, t)
	return out
}

func (ex *Exec) appendZero(out *[]Value, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ex.appendZero(out, u.Field(i).Type())
		}
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			panic(unsupported("huge array"))
		}
		if !isAgg(u.Elem()) {
			z := ex.zero(u.Elem())
			for i := 0; i < n; i++ {
				*out = append(*out, z)
			}
			return
		}
		for i := 0; i < n; i++ {
			ex.appendZero(out, u.Elem())
		}
	default:
		*out = append(*out, ex.zero(t))
	}
}

func (ex *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return ex.ctx.tFalse
		}
		if w, _ := intWidth(u); w > 0 {
			return ex.ctx.Const(0, w)
		}
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 {
			return Flt{}
		}
		if u.Info()&types.IsComplex != 0 {
			return Opaque{"complex"}
		}
		if u.Kind() == types.UnsafePointer {
			return Ptr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return Fn{}
	case *types.Interface:
		return Iface{}
	case *types.Struct, *types.Array:
		return Agg(ex.zeroSlots(t))
	case *types.Tuple:
		var o Tup
		for i := 0; i < u.Len(); i++ {
			o = append(o, ex.zero(u.At(i).Type()))
		}
		return o
	case *types.TypeParam:
		panic(unsupported("type parameter value"))
	}
	panic(unsupported(fmt.Sprintf("zero of %v", t)))
}

// load/store through (obj,off)

func (ex *Exec) load(st *State, p Ptr, t types.Type) Value {
	if p.obj == 0 {
		panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
	}
	o := ex.obj(st, p.obj)
	n := ex.lay.sizeof(t)
	if p.off < 0 || p.off+n > len(o.slots) {
		panic(unsupported(fmt.Sprintf("load out of object: off %d n %d len %d type %v", p.off, n, len(o.slots), t)))
	}
	if isAgg(t) {
		return Agg(append([]Value(nil), o.slots[p.off:p.off+n]...))
	}
	v := o.slots[p.off]
	return v
}

func (ex *Exec) store(st *State, p Ptr, t types.Type, v Value) {
	if p.obj == 0 {
		panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
	}
	ex.obj(st, p.obj)
	o := st.heap.mut(p.obj)
	n := ex.lay.sizeof(t)
	if p.off < 0 || p.off+n > len(o.slots) {
		panic(unsupported("store out of object"))
	}
	if isAgg(t) {
		copy(o.slots[p.off:p.off+n], v.(Agg))
		return
	}
	o.slots[p.off] = v
}

func (ex *Exec) obj(st *State, id int) *Obj {
	o := st.heap.get(id)
	if o == nil {
		// a global not materialised yet
		g := ex.w.globalByID(id)
		if g == nil {
			panic(unsupported(fmt.Sprintf("dangling object %d", id)))
		}
		et := g.Type().(*types.Pointer).Elem()
		o = &Obj{slots: ex.zeroSlots(et), own: st.heap.own, typ: et}
		st.heap.set(id, o)
	}
	return o
}

// ---------- strings ----------

func (ex *Exec) strTerms(s Str) []*T {
	if s.t != nil {
		return s.t
	}
	out := make([]*T, len(s.s))
	for i := 0; i < len(s.s); i++ {
		out[i] = ex.ctx.Const(uint64(s.s[i]), 8)
	}
	return out
}

func mkStr(ts []*T) Str {
	allc := true
	for _, t := range ts {
		if !t.isConst() {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(ts))
		for i, t := range ts {
			b[i] = byte(t.c)
		}
		return Str{s: string(b)}
	}
	return Str{t: ts}
}

func (ex *Exec) substr(s Str, lo, hi int) Str {
	if s.t == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.t[lo:hi])
}

func (ex *Exec) concat(a, b Str) Str {
	if a.t == nil && b.t == nil {
		return Str{s: a.s + b.s}
	}
	if a.length() == 0 {
		return b
	}
	if b.length() == 0 {
		return a
	}
	ta, tb := ex.strTerms(a), ex.strTerms(b)
	return Str{t: append(append(make([]*T, 0, len(ta)+len(tb)), ta...), tb...)}
}

func (ex *Exec) strEq(a, b Str) *T {
	if a.t == nil && b.t == nil {
		return ex.ctx.Bool(a.s == b.s)
	}
	if a.length() != b.length() {
		return ex.ctx.tFalse
	}
	ta, tb := ex.strTerms(a), ex.strTerms(b)
	cs := make([]*T, len(ta))
	for i := range ta {
		cs[i] = ex.ctx.Eq(ta[i], tb[i])
		if cs[i] == ex.ctx.tFalse {
			return cs[i]
		}
	}
	return ex.ctx.BAnd(cs...)
}

// strLess: lexicographic a<b as a term
func (ex *Exec) strLess(a, b Str) *T {
	if a.t == nil && b.t == nil {
		return ex.ctx.Bool(a.s < b.s)
	}
	c := ex.ctx
	ta, tb := ex.strTerms(a), ex.strTerms(b)
	n := len(ta)
	if len(tb) < n {
		n = len(tb)
	}
	r := c.Bool(len(ta) < len(tb))
	for i := n - 1; i >= 0; i-- {
		r = c.BIte(c.Eq(ta[i], tb[i]), r, c.Ult(ta[i], tb[i]))
	}
	return r
}

func cstr(v Value) (string, bool) {
	s, ok := v.(Str)
	if !ok || s.t != nil {
		return "", false
	}
	return s.s, true
}

type unsupported string
type goPanic struct{ v Value }
type forkSignal struct{ sts []*State }
type killPath struct{ why string }

func (ex *Exec) show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case *T:
		return printTerm(x, 4)
	case Str:
		if x.t == nil {
			return fmt.Sprintf("%q", x.s)
		}
		var b strings.Builder
		b.WriteString("\"")
		for _, t := range x.t {
			if t.isConst() {
				b.WriteByte(byte(t.c))
			} else {
				b.WriteString("{" + printTerm(t, 2) + "}")
			}
		}
		b.WriteString("\"")
		return b.String()
	case Iface:
		if x.t == nil {
			return "nil-iface"
		}
		return fmt.Sprintf("iface(%v,%s)", x.t, ex.show(x.v))
	default:
		return fmt.Sprintf("%T%v", v, v)
	}
}
