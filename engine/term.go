package main

// Hash-consed terms over booleans and bit-vectors of width <= 64, with a
// normal form that keeps bit shuffles (OCat), decimal arithmetic (OLin) and
// decimal digit extraction (ODigit) canonical.

import (
	"fmt"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OConst Op = iota // bv constant
	OVar             // bv variable with hard range [lo,hi]
	OCat             // pieces, LSB first
	OLin             // sum coef_i*zext(atom_i) + c  (mod 2^w)
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OIte   // args: cond(bool), a, b
	OB2V   // bool -> 1 bit
	ODigit // c-th decimal digit of args[0]
	OClip  // args[0], under the path's knowledge that it lies in [lo,hi]
	// booleans (w==0)
	OTrue
	OFalse
	OBVar
	ONot
	OBAnd
	OBIte
	OEq
	OUlt
	OSlt
	OBXor
)

type Piece struct {
	a     *T // nil: constant
	lo, w int
	c     uint64
}

type T struct {
	op     Op
	w      int
	id     int
	c      uint64
	args   []*T
	pieces []Piece
	coefs  []int64
	name   string
	lo, hi uint64
	exact  bool // OLin: the integer sum is within [0,2^w)
	rep    *T   // an equal term to use instead
	sup    *T   // the only variable, if there is just one; supMany otherwise
}

// supMany marks terms over several variables.
var supMany = &T{}

type Ctx struct {
	tab    map[uint64][]*T
	nextID int
	tTrue  *T
	tFalse *T
	vars   map[string]*T
	byTab  map[uint64][]tabTerm
	tabs   map[*T][]uint64
	hexOf  map[*T]*T // characters known to be the hexadecimal digit of a nibble
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*T{}, vars: map[string]*T{}, hexOf: map[*T]*T{}, byTab: map[uint64][]tabTerm{}, tabs: map[*T][]uint64{}}
	c.tTrue = c.intern(&T{op: OTrue})
	c.tFalse = c.intern(&T{op: OFalse})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func hmix(h, x uint64) uint64 {
	h ^= x
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	return h
}

func (c *Ctx) intern(t *T) *T {
	h := hmix(uint64(t.op), uint64(t.w))
	h = hmix(h, t.c)
	for _, a := range t.args {
		h = hmix(h, uint64(a.id)+7)
	}
	for _, k := range t.coefs {
		h = hmix(h, uint64(k))
	}
	for _, p := range t.pieces {
		if p.a != nil {
			h = hmix(h, uint64(p.a.id)+13)
		}
		h = hmix(h, uint64(p.lo)<<8|uint64(p.w))
		h = hmix(h, p.c)
	}
	for i := 0; i < len(t.name); i++ {
		h = hmix(h, uint64(t.name[i]))
	}
	if t.op == OClip {
		h = hmix(hmix(h, t.lo), t.hi)
	}
next:
	for _, u := range c.tab[h] {
		if u.op != t.op || u.w != t.w || u.c != t.c || u.name != t.name || len(u.args) != len(t.args) || len(u.pieces) != len(t.pieces) || len(u.coefs) != len(t.coefs) {
			continue
		}
		for i := range u.args {
			if u.args[i] != t.args[i] {
				continue next
			}
		}
		for i := range u.coefs {
			if u.coefs[i] != t.coefs[i] {
				continue next
			}
		}
		for i := range u.pieces {
			if u.pieces[i] != t.pieces[i] {
				continue next
			}
		}
		if t.op == OClip && (u.lo != t.lo || u.hi != t.hi) {
			continue
		}
		if u.rep != nil {
			return u.rep
		}
		return u
	}
	t.setSup()
	if t.op == OIte && t.sup != nil && t.sup != supMany && t.sup.w <= 8 && t.sup.w > 0 {
		if u := c.sameTable(t); u != nil {
			t.rep = u
			c.tab[h] = append(c.tab[h], t)
			return u
		}
	}
	c.nextID++
	t.id = c.nextID
	c.setRange(t)
	c.tab[h] = append(c.tab[h], t)
	return t
}

func min64(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func max64(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}

func (c *Ctx) setRange(t *T) {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	switch t.op {
	case OConst:
		t.lo, t.hi = t.c, t.c
	case OVar, OClip:
		// set by the constructor
	case OCat:
		sh := 0
		var lo, hi uint64
		for _, p := range t.pieces {
			if p.a == nil {
				lo |= p.c << uint(sh)
				hi |= p.c << uint(sh)
			} else if p.lo == 0 && p.a.hi <= mask(p.w) {
				lo |= p.a.lo << uint(sh)
				hi |= p.a.hi << uint(sh)
			} else if p.a.hi>>uint(p.lo) <= mask(p.w) {
				lo |= (p.a.lo >> uint(p.lo)) << uint(sh)
				hi |= (p.a.hi >> uint(p.lo)) << uint(sh)
			} else {
				hi |= mask(p.w) << uint(sh)
			}
			sh += p.w
		}
		t.lo, t.hi = lo, hi
	case OLin:
		lo, hi, ok := linRange(t.coefs, t.args, t.c, t.w)
		if ok {
			t.lo, t.hi = lo, hi
			t.exact = true
		} else {
			t.lo, t.hi = 0, m
		}
	case OUDiv:
		a, b := t.args[0], t.args[1]
		t.lo, t.hi = 0, m
		if b.lo > 0 {
			t.hi = a.hi / b.lo
			t.lo = a.lo / b.hi
		}
	case OURem:
		a, b := t.args[0], t.args[1]
		t.lo, t.hi = 0, a.hi
		if b.lo > 0 {
			t.hi = min64(a.hi, b.hi-1)
		}
	case OAnd:
		t.lo, t.hi = 0, min64(t.args[0].hi, t.args[1].hi)
	case OOr, OXor:
		l := bits.Len64(t.args[0].hi | t.args[1].hi)
		t.lo, t.hi = 0, mask(l)
		if t.op == OOr {
			t.lo = max64(t.args[0].lo, t.args[1].lo)
		}
	case OLshr:
		t.lo, t.hi = 0, t.args[0].hi
	case OMul:
		h, l := bits.Mul64(t.args[0].hi, t.args[1].hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.args[0].lo*t.args[1].lo, l
		} else {
			t.lo, t.hi = 0, m
		}
	case OIte:
		t.lo = min64(t.args[1].lo, t.args[2].lo)
		t.hi = max64(t.args[1].hi, t.args[2].hi)
	case OB2V:
		t.lo, t.hi = 0, 1
	case ODigit:
		t.lo, t.hi = 0, 9
	default:
		t.lo, t.hi = 0, m
	}
}

// signed 128-bit-ish accumulation using big steps: returns the integer range
// of the sum when it lies within [0,2^w).
func linRange(coefs []int64, atoms []*T, c uint64, w int) (uint64, uint64, bool) {
	type i128 struct{ h, l uint64 }
	add := func(a i128, b i128) i128 {
		l, cy := bits.Add64(a.l, b.l, 0)
		h, _ := bits.Add64(a.h, b.h, cy)
		return i128{h, l}
	}
	neg := func(a i128) i128 {
		l, br := bits.Sub64(0, a.l, 0)
		h, _ := bits.Sub64(0, a.h, br)
		return i128{h, l}
	}
	mul := func(k int64, x uint64) i128 {
		if k >= 0 {
			h, l := bits.Mul64(uint64(k), x)
			return i128{h, l}
		}
		h, l := bits.Mul64(uint64(-k), x)
		return neg(i128{h, l})
	}
	sc := signedConst(c, w)
	var base i128
	if sc < 0 {
		base = neg(i128{0, uint64(-sc)})
	} else {
		base = i128{0, uint64(sc)}
	}
	if w == 64 && sc == -1<<63 {
		return 0, 0, false
	}
	lo, hi := base, base
	for i, k := range coefs {
		if k >= 0 {
			lo = add(lo, mul(k, atoms[i].lo))
			hi = add(hi, mul(k, atoms[i].hi))
		} else {
			lo = add(lo, mul(k, atoms[i].hi))
			hi = add(hi, mul(k, atoms[i].lo))
		}
	}
	if lo.h == 0 && hi.h == 0 && lo.l <= mask(w) && hi.l <= mask(w) {
		return lo.l, hi.l, true
	}
	return 0, 0, false
}

func signedConst(c uint64, w int) int64 {
	if w >= 64 {
		return int64(c)
	}
	if c>>(uint(w)-1)&1 == 1 {
		return int64(c | ^mask(w))
	}
	return int64(c)
}

// ---------- constructors: bit-vectors ----------

func (c *Ctx) Const(v uint64, w int) *T {
	return c.intern(&T{op: OConst, w: w, c: v & mask(w)})
}

func (c *Ctx) Var(name string, w int, lo, hi uint64) *T {
	if v, ok := c.vars[name]; ok {
		if v.w != w || v.lo != lo || v.hi != hi {
			panic("variable redeclared: " + name)
		}
		return v
	}
	v := c.intern(&T{op: OVar, w: w, name: name, lo: lo, hi: hi})
	c.vars[name] = v
	return v
}

func (c *Ctx) BVar(name string) *T {
	if v, ok := c.vars[name]; ok {
		return v
	}
	v := c.intern(&T{op: OBVar, name: name})
	c.vars[name] = v
	return v
}

func (t *T) isConst() bool { return t.op == OConst }
func (t *T) String() string {
	return printTerm(t, 6)
}

// effective width
func ew(t *T) int { return bits.Len64(t.hi) }

// piecesOf views a term as a list of pieces of total width t.w.
func (c *Ctx) piecesOf(t *T) []Piece {
	switch t.op {
	case OConst:
		return []Piece{{nil, 0, t.w, t.c}}
	case OCat:
		return t.pieces
	}
	if t.op == OClip {
		if e := ew(t); e > 0 && e < t.w {
			return append(slicePieces(c.piecesOf(t.args[0]), 0, e), Piece{nil, 0, t.w - e, 0})
		}
	}
	a := t
	if t.op == OLin && t.exact && t.w != 64 {
		a = c.relin(t, 64)
		if a.op != OLin {
			a = t
		}
	}
	e := ew(t)
	if e == 0 {
		return []Piece{{nil, 0, t.w, 0}}
	}
	if e < t.w {
		return []Piece{{a, 0, e, 0}, {nil, 0, t.w - e, 0}}
	}
	return []Piece{{a, 0, t.w, 0}}
}

// relin rebuilds an exact Lin at another width (value preserved).
func (c *Ctx) relin(t *T, w int) *T {
	if t.w == w {
		return t
	}
	return c.mkLin(append([]int64(nil), t.coefs...), append([]*T(nil), t.args...), uint64(signedConst(t.c, t.w)), w)
}

func slicePieces(ps []Piece, lo, w int) []Piece {
	var out []Piece
	pos := 0
	for _, p := range ps {
		s, e := pos, pos+p.w
		pos = e
		if e <= lo || s >= lo+w {
			continue
		}
		cs, ce := s, e
		if cs < lo {
			cs = lo
		}
		if ce > lo+w {
			ce = lo + w
		}
		np := p
		np.w = ce - cs
		if p.a == nil {
			np.c = (p.c >> uint(cs-s)) & mask(np.w)
		} else {
			np.lo = p.lo + (cs - s)
		}
		out = append(out, np)
	}
	return out
}

func (c *Ctx) mkCat(ps []Piece) *T {
	w := 0
	var out []Piece
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		w += p.w
		if p.a != nil {
			if p.a.op == OConst {
				p = Piece{nil, 0, p.w, (p.a.c >> uint(p.lo)) & mask(p.w)}
			} else if p.a.op == OCat {
				panic("nested cat")
			}
		}
		if p.a != nil {
			e := ew(p.a)
			if p.lo >= e {
				p = Piece{nil, 0, p.w, 0}
			} else if p.lo+p.w > e {
				extra := p.lo + p.w - e
				p.w -= extra
				out = appendPiece(out, p)
				p = Piece{nil, 0, extra, 0}
			}
		}
		out = appendPiece(out, p)
	}
	if w > 64 {
		panic("cat too wide")
	}
	// canonicalise
	if len(out) == 1 && out[0].a == nil {
		return c.Const(out[0].c, w)
	}
	if len(out) == 0 {
		panic("empty cat")
	}
	p := out[0]
	if p.a != nil && p.lo == 0 && p.w >= ew(p.a) && (len(out) == 1 || len(out) == 2 && out[1].a == nil && out[1].c == 0) {
		if p.a.w == w {
			return p.a
		}
		if p.a.op == OLin && p.a.exact {
			return c.relin(p.a, w)
		}
		if p.a.op == ODigit {
			return c.intern(&T{op: ODigit, w: w, c: p.a.c, args: p.a.args})
		}
	}
	return c.intern(&T{op: OCat, w: w, pieces: out})
}

func appendPiece(out []Piece, p Piece) []Piece {
	if n := len(out); n > 0 {
		q := &out[n-1]
		if q.a == nil && p.a == nil {
			if q.w+p.w <= 64 {
				q.c |= p.c << uint(q.w)
				q.w += p.w
				return out
			}
		} else if q.a != nil && q.a == p.a && q.lo+q.w == p.lo {
			q.w += p.w
			return out
		}
	}
	return append(out, p)
}

func (c *Ctx) Extract(t *T, lo, w int) *T {
	if lo == 0 && w == t.w {
		return t
	}
	if t.op == OConst {
		return c.Const(t.c>>uint(lo), w)
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.Extract(t.args[1], lo, w), c.Extract(t.args[2], lo, w))
	}
	if (t.op == OAnd || t.op == OOr || t.op == OXor) && t.w > 1 {
		a, b := c.Extract(t.args[0], lo, w), c.Extract(t.args[1], lo, w)
		switch t.op {
		case OAnd:
			return c.And2(a, b)
		case OOr:
			return c.Or2(a, b)
		}
		return c.Xor2(a, b)
	}
	return c.mkCat(slicePieces(c.piecesOf(t), lo, w))
}

func (c *Ctx) Zext(t *T, w int) *T {
	if w == t.w {
		return t
	}
	if w < t.w {
		return c.Extract(t, 0, w)
	}
	if t.op == OConst {
		return c.Const(t.c, w)
	}
	if t.op == OIte && (t.args[1].isConst() || t.args[2].isConst()) {
		return c.Ite(t.args[0], c.Zext(t.args[1], w), c.Zext(t.args[2], w))
	}
	ps := append([]Piece(nil), c.piecesOf(t)...)
	ps = append(ps, Piece{nil, 0, w - t.w, 0})
	return c.mkCat(ps)
}

func (c *Ctx) Sext(t *T, w int) *T {
	if w <= t.w {
		return c.Zext(t, w)
	}
	if t.op == OConst {
		return c.Const(uint64(signedConst(t.c, t.w)), w)
	}
	if t.hi < uint64(1)<<uint(t.w-1) {
		return c.Zext(t, w)
	}
	// general: ite(sign, ones, zeros) ++ t
	sign := c.Extract(t, t.w-1, 1)
	hi := c.Ite(c.Eq(sign, c.Const(1, 1)), c.Const(mask(w-t.w), w-t.w), c.Const(0, w-t.w))
	ps := append([]Piece(nil), c.piecesOf(t)...)
	ps = append(ps, c.piecesOf(hi)...)
	return c.mkCat(ps)
}

func (c *Ctx) Concat(hi, lo *T) *T {
	ps := append([]Piece(nil), c.piecesOf(lo)...)
	ps = append(ps, c.piecesOf(hi)...)
	return c.mkCat(ps)
}

// known bits: ones, zeros masks
func (c *Ctx) known(t *T) (ones, zeros uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.c, ^t.c & m
	case OCat:
		sh := 0
		for _, p := range t.pieces {
			if p.a == nil {
				ones |= p.c << uint(sh)
				zeros |= (^p.c & mask(p.w)) << uint(sh)
			} else {
				o, z := c.known(p.a)
				if p.a.op == OLin || p.a.op == OVar {
					// range based only
				}
				ones |= ((o >> uint(p.lo)) & mask(p.w)) << uint(sh)
				zeros |= ((z >> uint(p.lo)) & mask(p.w)) << uint(sh)
			}
			sh += p.w
		}
		return
	case OIte:
		o1, z1 := c.known(t.args[1])
		o2, z2 := c.known(t.args[2])
		return o1 & o2, z1 & z2
	case OAnd:
		o1, z1 := c.known(t.args[0])
		o2, z2 := c.known(t.args[1])
		return o1 & o2, z1 | z2
	case OOr:
		o1, z1 := c.known(t.args[0])
		o2, z2 := c.known(t.args[1])
		return o1 | o2, z1 & z2
	}
	zeros = m &^ mask(ew(t))
	// common high bits of lo and hi
	if t.lo != 0 {
		diff := t.lo ^ t.hi
		n := bits.Len64(diff)
		common := m &^ mask(n)
		ones |= t.hi & common
		zeros |= ^t.hi & common
	}
	return
}

type align struct {
	a, b Piece
}

func alignPieces(pa, pb []Piece) [][2]Piece {
	var out [][2]Piece
	i, j := 0, 0
	if len(pa) == 0 {
		return nil
	}
	x, y := pa[0], pb[0]
	for {
		n := x.w
		if y.w < n {
			n = y.w
		}
		cut := func(p Piece) (Piece, Piece) {
			h := p
			h.w = n
			r := p
			r.w = p.w - n
			if p.a == nil {
				h.c = p.c & mask(n)
				r.c = p.c >> uint(n)
				if n == 64 {
					r.c = 0
				}
			} else {
				r.lo = p.lo + n
			}
			return h, r
		}
		var hx, hy Piece
		hx, x = cut(x)
		hy, y = cut(y)
		out = append(out, [2]Piece{hx, hy})
		if x.w == 0 {
			i++
			if i < len(pa) {
				x = pa[i]
			}
		}
		if y.w == 0 {
			j++
			if j < len(pb) {
				y = pb[j]
			}
		}
		if i >= len(pa) || j >= len(pb) {
			return out
		}
	}
}

// splitConstPieces splits the constant pieces of pb into runs of equal bits so
// that alignment isolates the 0-runs and 1-runs of masks.
func splitRuns(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if p.a != nil {
			out = append(out, p)
			continue
		}
		rem := p
		for rem.w > 0 {
			b := rem.c & 1
			n := 0
			for n < rem.w && (rem.c>>uint(n))&1 == b {
				n++
			}
			q := Piece{nil, 0, n, 0}
			if b == 1 {
				q.c = mask(n)
			}
			out = append(out, q)
			rem.w -= n
			if n < 64 {
				rem.c >>= uint(n)
			}
		}
	}
	return out
}

func (c *Ctx) pieceTerm(p Piece) *T {
	if p.a == nil {
		return c.Const(p.c, p.w)
	}
	return c.mkCat([]Piece{p})
}

func (c *Ctx) bitop(op Op, a, b *T) *T {
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OAnd:
			return c.Const(a.c&b.c, w)
		case OOr:
			return c.Const(a.c|b.c, w)
		default:
			return c.Const(a.c^b.c, w)
		}
	}
	if a == b {
		if op == OXor {
			return c.Const(0, w)
		}
		return a
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch op {
		case OAnd:
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
		case OOr:
			if b.c == 0 {
				return a
			}
			if b.c == mask(w) {
				return b
			}
		case OXor:
			if b.c == 0 {
				return a
			}
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.bitop(op, a.args[1], b), c.bitop(op, a.args[2], b))
		}
	}
	pa, pb := splitRuns(c.piecesOf(a)), splitRuns(c.piecesOf(b))
	al := alignPieces(pa, pb)
	if len(al) > 1 || al[0][0].a == nil || al[0][1].a == nil {
		var out []Piece
		for _, pr := range al {
			x, y := pr[0], pr[1]
			if x.a == nil {
				x, y = y, x
			}
			var r *T
			if x.a == nil {
				r = c.bitop(op, c.Const(x.c, x.w), c.Const(y.c, y.w))
			} else if y.a == nil {
				xt := c.pieceTerm(x)
				all := y.c == mask(y.w)
				switch {
				case op == OAnd && !all:
					r = c.Const(0, y.w)
				case op == OAnd:
					r = xt
				case op == OOr && !all:
					r = xt
				case op == OOr:
					r = c.Const(mask(y.w), y.w)
				case op == OXor && !all:
					r = xt
				default:
					if x.w == 1 {
						r = c.B2V(c.Not(c.bitIsOne(xt)))
					} else {
						r = c.rawBitop(OXor, xt, c.Const(y.c, y.w))
					}
				}
			} else {
				r = c.bitop1(op, c.pieceTerm(x), c.pieceTerm(y))
			}
			out = append(out, c.piecesOf(r)...)
		}
		return c.mkCat(out)
	}
	return c.bitop1(op, a, b)
}

func (c *Ctx) bitop1(op Op, a, b *T) *T {
	if a == b {
		if op == OXor {
			return c.Const(0, a.w)
		}
		return a
	}
	if a.w == 1 {
		x, y := c.bitIsOne(a), c.bitIsOne(b)
		switch op {
		case OAnd:
			return c.B2V(c.BAnd(x, y))
		case OOr:
			return c.B2V(c.BOr(x, y))
		default:
			return c.B2V(c.BXor(x, y))
		}
	}
	return c.rawBitop(op, a, b)
}

func (c *Ctx) rawBitop(op Op, a, b *T) *T {
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&T{op: op, w: a.w, args: []*T{a, b}})
}

func (c *Ctx) And2(a, b *T) *T { return c.bitop(OAnd, a, b) }
func (c *Ctx) Or2(a, b *T) *T  { return c.bitop(OOr, a, b) }
func (c *Ctx) Xor2(a, b *T) *T { return c.bitop(OXor, a, b) }
func (c *Ctx) BvNot(a *T) *T   { return c.Xor2(a, c.Const(mask(a.w), a.w)) }

func (c *Ctx) bitIsOne(t *T) *T {
	return c.Eq(t, c.Const(1, 1))
}

func (c *Ctx) B2V(b *T) *T {
	if b == c.tTrue {
		return c.Const(1, 1)
	}
	if b == c.tFalse {
		return c.Const(0, 1)
	}
	if b.op == OEq && b.args[1].isConst() && b.args[1].w == 1 && b.args[1].c == 1 {
		return b.args[0]
	}
	return c.intern(&T{op: OB2V, w: 1, args: []*T{b}})
}

func (c *Ctx) ShlC(a *T, n int) *T {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(0, a.w)
	}
	if a.op == OLin && a.exact && ew(a)+n <= a.w {
		return c.MulC(a, int64(1)<<uint(n))
	}
	ps := append([]Piece{{nil, 0, n, 0}}, slicePieces(c.piecesOf(a), 0, a.w-n)...)
	return c.mkCat(ps)
}

func (c *Ctx) LshrC(a *T, n int) *T {
	if n == 0 {
		return a
	}
	if n >= a.w {
		return c.Const(0, a.w)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.LshrC(a.args[1], n), c.LshrC(a.args[2], n))
	}
	ps := append(slicePieces(c.piecesOf(a), n, a.w-n), Piece{nil, 0, n, 0})
	return c.mkCat(ps)
}

func (c *Ctx) Shl(a, b *T) *T {
	if b.isConst() {
		if b.c >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		return c.ShlC(a, int(b.c))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return c.shiftIte(a, b, func(n int) *T { return c.ShlC(a, n) }, c.Const(0, a.w), OShl)
}
func (c *Ctx) Lshr(a, b *T) *T {
	if b.isConst() {
		if b.c >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		return c.LshrC(a, int(b.c))
	}
	if a.isConst() && a.c == 0 {
		return a
	}
	return c.shiftIte(a, b, func(n int) *T { return c.LshrC(a, n) }, c.Const(0, a.w), OLshr)
}
func (c *Ctx) Ashr(a, b *T) *T {
	if a.hi < uint64(1)<<uint(a.w-1) {
		return c.Lshr(a, b)
	}
	if b.isConst() {
		n := a.w - 1
		if b.c < uint64(a.w) {
			n = int(b.c)
		}
		if n == 0 {
			return a
		}
		if a.isConst() {
			return c.Const(uint64(signedConst(a.c, a.w)>>uint(n)), a.w)
		}
		return c.Sext(c.Extract(a, n, a.w-n), a.w)
	}
	return c.intern(&T{op: OAshr, w: a.w, args: []*T{a, c.fitWidth(b, a.w)}})
}

// fitWidth brings a shift count to width w, saturating when it does not fit.
func (c *Ctx) fitWidth(b *T, w int) *T {
	if b.w <= w {
		return c.Zext(b, w)
	}
	if b.hi <= mask(w) {
		return c.Extract(b, 0, w)
	}
	return c.Ite(c.Ult(b, c.Const(uint64(w), b.w)), c.Extract(b, 0, w), c.Const(uint64(w), w))
}

func (c *Ctx) shiftIte(a, b *T, f func(int) *T, over *T, op Op) *T {
	if b.hi-b.lo <= 70 {
		r := over
		for n := b.hi; ; n-- {
			v := over
			if n < uint64(a.w) {
				v = f(int(n))
			}
			if n == b.hi {
				r = v
			} else {
				r = c.Ite(c.Eq(b, c.Const(n, b.w)), v, r)
			}
			if n == b.lo {
				break
			}
		}
		return r
	}
	return c.intern(&T{op: op, w: a.w, args: []*T{a, c.fitWidth(b, a.w)}})
}

// ---------- linear arithmetic ----------

type linAcc struct {
	w  int
	c  uint64
	co map[*T]int64
}

func (c *Ctx) linAdd(l *linAcc, t *T, k int64) {
	if k == 0 {
		return
	}
	switch t.op {
	case OConst:
		l.c += t.c * uint64(k)
		return
	case OLin:
		if t.exact || t.w == l.w {
			l.c += uint64(signedConst(t.c, t.w)) * uint64(k)
			for i, a := range t.args {
				c.linAdd(l, a, t.coefs[i]*k)
			}
			return
		}
	case OCat:
		// strip constant low pieces and zero high pieces
		ps := t.pieces
		sh := 0
		if ps[0].a == nil {
			if ps[0].c != 0 {
				l.c += ps[0].c * uint64(k)
			}
			sh = ps[0].w
			ps = ps[1:]
		}
		if n := len(ps); n > 0 && ps[n-1].a == nil {
			l.c += (ps[n-1].c << uint(t.w-ps[n-1].w)) * uint64(k)
			ps = ps[:n-1]
		}
		core := c.mkCat(ps)
		kk := k * (int64(1) << uint(sh))
		if core.op == OCat {
			l.co[core] += kk
		} else {
			if core.op == OLin || core.op == OConst {
				c.linAdd(l, core, kk)
			} else {
				l.co[c.atomCore(core)] += kk
			}
		}
		return
	}
	l.co[c.atomCore(t)] += k
}

// atomCore canonicalises the width of an atom whose value does not depend on it
func (c *Ctx) atomCore(t *T) *T {
	if t.op == ODigit && t.w != 8 {
		return c.intern(&T{op: ODigit, w: 8, c: t.c, args: t.args})
	}
	return t
}

var pow10 = func() [20]uint64 {
	var p [20]uint64
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return p
}()

func (c *Ctx) finishLin(l *linAcc) *T {
	// digit recombination
	for {
		byV := map[*T]map[int]int64{}
		for a, k := range l.co {
			if k != 0 && a.op == ODigit {
				if byV[a.args[0]] == nil {
					byV[a.args[0]] = map[int]int64{}
				}
				byV[a.args[0]][int(a.c)] = k
			}
		}
		done := true
		for v, ds := range byV {
			n := 1
			for n < 20 && v.hi >= pow10[n] {
				n++
			}
			if n >= 19 && v.hi >= pow10[19] {
				continue
			}
			k := ds[0]
			ok := k != 0
			for i := 1; i < n && ok; i++ {
				if i >= 19 || ds[i] != k*int64(pow10[i]) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			for i := 0; i < n; i++ {
				d := c.intern(&T{op: ODigit, w: 8, c: uint64(i), args: []*T{v}})
				delete(l.co, d)
			}
			c.linAdd(l, v, k)
			done = false
			break
		}
		if done {
			break
		}
	}
	var atoms []*T
	for a, k := range l.co {
		if k != 0 {
			atoms = append(atoms, a)
		}
	}
	if l.w < 64 {
		// reduce coefficients modulo 2^w
		kept := atoms[:0]
		for _, a := range atoms {
			k := signedConst(uint64(l.co[a])&mask(l.w), l.w)
			l.co[a] = k
			if k != 0 {
				kept = append(kept, a)
			}
		}
		atoms = kept
	}
	l.c &= mask(l.w)
	if len(atoms) == 0 {
		return c.Const(l.c, l.w)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	co := make([]int64, len(atoms))
	for i, a := range atoms {
		co[i] = l.co[a]
	}
	if len(atoms) == 1 && l.c == 0 && co[0] > 0 && co[0]&(co[0]-1) == 0 {
		n := bits.TrailingZeros64(uint64(co[0]))
		return c.ShlC(c.Zext(atoms[0], l.w), n)
	}
	return c.intern(&T{op: OLin, w: l.w, c: l.c, args: atoms, coefs: co})
}

func (c *Ctx) mkLin(coefs []int64, atoms []*T, k uint64, w int) *T {
	l := &linAcc{w: w, c: k, co: map[*T]int64{}}
	for i, a := range atoms {
		c.linAdd(l, a, coefs[i])
	}
	return c.finishLin(l)
}

func (c *Ctx) Add(a, b *T) *T {
	if a.isConst() && b.isConst() {
		return c.Const(a.c+b.c, a.w)
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.c == 0 {
		return a
	}
	if a.w == 1 {
		return c.Xor2(a, b)
	}
	// disjoint bits: or
	_, za := c.known(a)
	_, zb := c.known(b)
	if (za|zb) == mask(a.w) && (a.op == OCat || b.op == OCat || a.op == OVar || b.op == OVar || a.op == OB2V || b.op == OB2V) && !(a.op == OLin || b.op == OLin) && !hasDigit(a) && !hasDigit(b) {
		return c.Or2(a, b)
	}
	if b.isConst() {
		ob, _ := c.known(a)
		neg := (-b.c) & mask(a.w)
		if a.op == OCat && ob&neg == neg && signedConst(b.c, b.w) < 0 {
			return c.And2(a, c.Const(^neg, a.w))
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Add(a.args[1], b), c.Add(a.args[2], b))
		}
	}
	l := &linAcc{w: a.w, co: map[*T]int64{}}
	c.linAdd(l, a, 1)
	c.linAdd(l, b, 1)
	return c.finishLin(l)
}

func hasDigit(t *T) bool {
	if t.op == ODigit {
		return true
	}
	if t.op == OCat {
		for _, p := range t.pieces {
			if p.a != nil && p.a.op == ODigit {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) Sub(a, b *T) *T {
	if a == b {
		return c.Const(0, a.w)
	}
	if b.isConst() {
		return c.Add(a, c.Const(-b.c, a.w))
	}
	if a.w == 1 {
		return c.Xor2(a, b)
	}
	l := &linAcc{w: a.w, co: map[*T]int64{}}
	c.linAdd(l, a, 1)
	c.linAdd(l, b, -1)
	return c.finishLin(l)
}

func (c *Ctx) Neg(a *T) *T { return c.Sub(c.Const(0, a.w), a) }

func (c *Ctx) MulC(a *T, k int64) *T {
	if a.isConst() {
		return c.Const(a.c*uint64(k), a.w)
	}
	if k == 0 {
		return c.Const(0, a.w)
	}
	if k == 1 {
		return a
	}
	if a.op != OLin && k > 0 && k&(k-1) == 0 && !hasDigit(a) {
		return c.ShlC(a, bits.TrailingZeros64(uint64(k)))
	}
	if a.w == 1 {
		return c.And2(a, c.Const(uint64(k), 1))
	}
	l := &linAcc{w: a.w, co: map[*T]int64{}}
	c.linAdd(l, a, k)
	return c.finishLin(l)
}

func (c *Ctx) Mul(a, b *T) *T {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		return c.MulC(a, signedConst(b.c, b.w))
	}
	if a.id > b.id {
		a, b = b, a
	}
	// (0/1) * x
	if a.hi <= 1 {
		return c.Ite(c.Eq(a, c.Const(0, a.w)), c.Const(0, a.w), b)
	}
	if b.hi <= 1 {
		return c.Ite(c.Eq(b, c.Const(0, b.w)), c.Const(0, b.w), a)
	}
	return c.intern(&T{op: OMul, w: a.w, args: []*T{a, b}})
}

// splitLin splits an exact Lin by divisor k: t = k*q + r with 0<=r<k
func (c *Ctx) splitLin(t *T, k uint64) (q, r *T, ok bool) {
	if t.op != OLin || !t.exact || k == 0 || k > 1<<62 {
		return nil, nil, false
	}
	lq := &linAcc{w: t.w, co: map[*T]int64{}}
	lr := &linAcc{w: t.w, co: map[*T]int64{}}
	nr := 0
	for i, a := range t.args {
		if t.coefs[i]%int64(k) == 0 {
			lq.co[a] = t.coefs[i] / int64(k)
		} else {
			lr.co[a] = t.coefs[i]
			nr++
		}
	}
	if len(lq.co) == 0 && nr > 0 && t.hi >= k {
		return nil, nil, false
	}
	sc := signedConst(t.c, t.w)
	rc := sc % int64(k)
	if rc < 0 {
		rc += int64(k)
	}
	// try the constant remainder as is, and shifted down by k
	for _, cand := range []int64{rc, rc - int64(k)} {
		var ra []*T
		var rk []int64
		for a, kk := range lr.co {
			ra = append(ra, a)
			rk = append(rk, kk)
		}
		lo, hi, okr := linRange(rk, ra, uint64(cand)&mask(t.w), t.w)
		_ = lo
		if okr && hi < k {
			lr.c = uint64(cand) & mask(t.w)
			lq.c = uint64((sc-cand)/int64(k)) & mask(t.w)
			r = c.finishLin(lr)
			q = c.finishLin(lq)
			return q, r, true
		}
	}
	return nil, nil, false
}

func (c *Ctx) UDiv(a, b *T) *T {
	if b.isConst() && b.c != 0 {
		k := b.c
		if a.isConst() {
			return c.Const(a.c/k, a.w)
		}
		if k == 1 {
			return a
		}
		if a.hi < k {
			return c.Const(0, a.w)
		}
		if k&(k-1) == 0 {
			return c.LshrC(a, bits.TrailingZeros64(k))
		}
		if q, _, ok := c.splitLin(a, k); ok {
			return q
		}
		if a.op == OUDiv && a.args[1].isConst() {
			h, l := bits.Mul64(a.args[1].c, k)
			if h == 0 && l <= mask(a.w) {
				return c.UDiv(a.args[0], c.Const(l, a.w))
			}
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.UDiv(a.args[1], b), c.UDiv(a.args[2], b))
		}
	}
	return c.intern(&T{op: OUDiv, w: a.w, args: []*T{a, b}})
}

func (c *Ctx) URem(a, b *T) *T {
	if b.isConst() && b.c != 0 {
		k := b.c
		if a.isConst() {
			return c.Const(a.c%k, a.w)
		}
		if k == 1 {
			return c.Const(0, a.w)
		}
		if a.hi < k {
			return a
		}
		if k&(k-1) == 0 {
			n := bits.TrailingZeros64(k)
			return c.Zext(c.Extract(a, 0, n), a.w)
		}
		if _, r, ok := c.splitLin(a, k); ok {
			return r
		}
		if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.URem(a.args[1], b), c.URem(a.args[2], b))
		}
		if k == 10 && ew(a) > 0 {
			// digit of a quotient
			if a.op == OUDiv && a.args[1].isConst() {
				for i := 1; i < 20; i++ {
					if a.args[1].c == pow10[i] {
						return c.Digit(a.args[0], i, a.w)
					}
				}
			} else {
				return c.Digit(a, 0, a.w)
			}
		}
	}
	return c.intern(&T{op: OURem, w: a.w, args: []*T{a, b}})
}

// Digit returns the i-th decimal digit (0 = least significant) of v, width w.
func (c *Ctx) Digit(v *T, i int, w int) *T {
	if v.isConst() {
		if i >= 20 {
			return c.Const(0, w)
		}
		return c.Const(v.c/pow10[i]%10, w)
	}
	if i < 20 && v.hi < pow10[i] {
		return c.Const(0, w)
	}
	if v.op == OLin && v.exact {
		q := v
		ok := true
		for j := 0; j < i; j++ {
			q2, _, k := c.splitLin(q, 10)
			if !k {
				ok = false
				break
			}
			q = q2
			if q.op != OLin {
				// the quotient became an atom or constant
				if q.hi < 10 {
					if j+1 == i {
						return c.Zext(q, w)
					}
					return c.Const(0, w)
				}
				return c.Digit(q, i-j-1, w)
			}
		}
		if ok {
			if q.hi < 10 {
				return c.Zext(q, w)
			}
			if _, r, k := c.splitLin(q, 10); k {
				return c.Zext(r, w)
			}
		}
	} else if v.hi < 10 && i == 0 {
		return c.Zext(v, w)
	}
	if i >= 20 {
		return c.Const(0, w)
	}
	if v.op == OCat && v.pieces[len(v.pieces)-1].a == nil && v.pieces[len(v.pieces)-1].c == 0 {
		// strip leading zeros so that the same number has the same digits
		ps := v.pieces[:len(v.pieces)-1]
		v = c.mkCat(ps)
	} else if v.op == OLin && v.exact {
		v = c.relin(v, 64)
	}
	return c.intern(&T{op: ODigit, w: w, c: uint64(i), args: []*T{v}})
}

func (c *Ctx) Clip(v *T, lo, hi uint64) *T {
	if v.isConst() {
		return v
	}
	for v.op == OClip {
		lo, hi = max64(lo, v.lo), min64(hi, v.hi)
		v = v.args[0]
	}
	lo, hi = max64(lo, v.lo), min64(hi, v.hi)
	if lo == v.lo && hi == v.hi || lo > hi {
		return v
	}
	if lo == hi {
		return c.Const(lo, v.w)
	}
	return c.intern(&T{op: OClip, w: v.w, args: []*T{v}, lo: lo, hi: hi})
}

func (c *Ctx) SDiv(a, b *T) *T {
	if a.isConst() && b.isConst() && b.c != 0 {
		return c.Const(uint64(signedConst(a.c, a.w)/signedConst(b.c, b.w)), a.w)
	}
	s := uint64(1) << uint(a.w-1)
	if a.hi < s && b.hi < s {
		return c.UDiv(a, b)
	}
	return c.intern(&T{op: OSDiv, w: a.w, args: []*T{a, b}})
}
func (c *Ctx) SRem(a, b *T) *T {
	if a.isConst() && b.isConst() && b.c != 0 {
		return c.Const(uint64(signedConst(a.c, a.w)%signedConst(b.c, b.w)), a.w)
	}
	s := uint64(1) << uint(a.w-1)
	if a.hi < s && b.hi < s {
		return c.URem(a, b)
	}
	return c.intern(&T{op: OSRem, w: a.w, args: []*T{a, b}})
}

func (c *Ctx) Ite(cond, a, b *T) *T {
	if cond == c.tTrue || a == b {
		return a
	}
	if cond == c.tFalse {
		return b
	}
	if a.w == 0 {
		return c.BIte(cond, a, b)
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.w == 1 {
		return c.B2V(c.BIte(cond, c.bitIsOne(a), c.bitIsOne(b)))
	}
	// const/const with one differing power of two, or linear difference
	if a.isConst() && b.isConst() {
		d := a.c ^ b.c
		if d&(d-1) == 0 {
			n := bits.TrailingZeros64(d)
			bit := cond
			if b.c&d != 0 {
				bit = c.Not(cond)
			}
			var ps []Piece
			if n > 0 {
				ps = append(ps, Piece{nil, 0, n, a.c & mask(n)})
			}
			ps = append(ps, c.piecesOf(c.B2V(bit))...)
			if n+1 < a.w {
				ps = append(ps, Piece{nil, 0, a.w - n - 1, a.c >> uint(n+1)})
			}
			return c.mkCat(ps)
		}
	}
	if a.op == OLin || b.op == OLin || a.op == OCat || b.op == OCat {
		d := c.Sub(a, b)
		if d.isConst() {
			k := signedConst(d.c, d.w)
			// b + k*[cond]
			if k > 0 {
				return c.Add(b, c.MulC(c.Zext(c.B2V(cond), a.w), k))
			} else if k != -1<<63 {
				return c.Add(a, c.MulC(c.Zext(c.B2V(c.Not(cond)), a.w), -k))
			}
		}
	}
	return c.intern(&T{op: OIte, w: a.w, args: []*T{cond, a, b}})
}

// ---------- booleans ----------

func (c *Ctx) Bool(b bool) *T {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *Ctx) Not(a *T) *T {
	switch a.op {
	case OTrue:
		return c.tFalse
	case OFalse:
		return c.tTrue
	case ONot:
		return a.args[0]
	}
	return c.intern(&T{op: ONot, args: []*T{a}})
}

func (c *Ctx) BAnd(xs ...*T) *T {
	set := map[*T]bool{}
	var list []*T
	var add func(t *T) bool
	add = func(t *T) bool {
		if t == c.tTrue {
			return true
		}
		if t == c.tFalse {
			return false
		}
		if t.op == OBAnd {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if set[t] {
			return true
		}
		if t.op == ONot && set[t.args[0]] {
			return false
		}
		if t.op != ONot {
			if n := c.lookupNot(t); n != nil && set[n] {
				return false
			}
		}
		set[t] = true
		list = append(list, t)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return c.tFalse
		}
	}
	// absorption: a ∧ ¬(a ∧ b) -> a ∧ ¬b ; a ∧ ¬(¬a ∧ b) -> a
	for changed := true; changed; {
		changed = false
		for i, t := range list {
			if t.op != ONot || t.args[0].op != OBAnd {
				continue
			}
			in := t.args[0]
			var keep []*T
			drop := false
			for _, a := range in.args {
				if set[a] {
					continue
				}
				na := c.Not(a)
				if set[na] {
					drop = true
					break
				}
				keep = append(keep, a)
			}
			if drop {
				delete(set, t)
				list = append(append([]*T(nil), list[:i]...), list[i+1:]...)
				changed = true
				break
			}
			if len(keep) != len(in.args) {
				nt := c.Not(c.BAnd(keep...))
				delete(set, t)
				rest := append(append([]*T(nil), list[:i]...), list[i+1:]...)
				return c.BAnd(append(rest, nt)...)
			}
		}
	}
	switch len(list) {
	case 0:
		return c.tTrue
	case 1:
		return list[0]
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	return c.intern(&T{op: OBAnd, args: list})
}

func (c *Ctx) lookupNot(t *T) *T {
	return c.Not(t)
}

func (c *Ctx) BOr(xs ...*T) *T {
	ns := make([]*T, len(xs))
	for i, x := range xs {
		ns[i] = c.Not(x)
	}
	return c.Not(c.BAnd(ns...))
}

func (c *Ctx) BXor(a, b *T) *T {
	if a == b {
		return c.tFalse
	}
	if a == c.tFalse {
		return b
	}
	if b == c.tFalse {
		return a
	}
	if a == c.tTrue {
		return c.Not(b)
	}
	if b == c.tTrue {
		return c.Not(a)
	}
	neg := false
	if a.op == ONot {
		a = a.args[0]
		neg = !neg
	}
	if b.op == ONot {
		b = b.args[0]
		neg = !neg
	}
	if a == b {
		return c.Bool(neg)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := c.intern(&T{op: OBXor, args: []*T{a, b}})
	if neg {
		return c.Not(t)
	}
	return t
}

func (c *Ctx) Iff(a, b *T) *T { return c.Not(c.BXor(a, b)) }

func (c *Ctx) BIte(k, a, b *T) *T {
	if k == c.tTrue || a == b {
		return a
	}
	if k == c.tFalse {
		return b
	}
	if a == c.tTrue || a == k {
		return c.BOr(k, b)
	}
	if a == c.tFalse {
		return c.BAnd(c.Not(k), b)
	}
	if b == c.tFalse || b == k {
		return c.BAnd(k, a)
	}
	if b == c.tTrue {
		return c.BOr(c.Not(k), a)
	}
	if k.op == ONot {
		return c.BIte(k.args[0], b, a)
	}
	if a == c.Not(b) {
		return c.Iff(k, a)
	}
	return c.intern(&T{op: OBIte, args: []*T{k, a, b}})
}

func strip(t *T) *T {
	for t.op == OClip {
		t = t.args[0]
	}
	return t
}

func (c *Ctx) Eq(a, b *T) *T {
	if a == b {
		return c.tTrue
	}
	if a.w == 0 {
		return c.Iff(a, b)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.tFalse // distinct after interning
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	a, b = strip(a), strip(b)
	if a == b {
		return c.tTrue
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.op == OIte {
			x, y := a.args[1], a.args[2]
			if x.isConst() || y.isConst() || depthLE(a, 6) {
				return c.BIte(a.args[0], c.Eq(x, b), c.Eq(y, b))
			}
		}
		if a.w == 1 {
			if b.c == 0 {
				return c.Not(c.Eq(a, c.Const(1, 1)))
			}
			if a.op == OB2V {
				return a.args[0]
			}
			if a.op == OCat && len(a.pieces) == 1 && a.pieces[0].a.op == OB2V {
				return a.pieces[0].a.args[0]
			}
		}
		if a.op == OLin && a.exact && len(a.args) == 1 {
			k := a.coefs[0]
			d := int64(b.c) - signedConst(a.c, a.w)
			if b.c < 1<<62 {
				if d%k != 0 {
					return c.tFalse
				}
				q := d / k
				if q < 0 || uint64(q) > a.args[0].hi {
					return c.tFalse
				}
				return c.Eq(a.args[0], c.Const(uint64(q), a.args[0].w))
			}
		}
	}
	if a.w == 1 && !b.isConst() {
		return c.Iff(c.bitIsOne(a), c.bitIsOne(b))
	}
	if a.op == OCat || b.op == OCat {
		al := alignPieces(c.piecesOf(a), c.piecesOf(b))
		if len(al) > 1 {
			var cs []*T
			for _, p := range al {
				e := c.Eq(c.pieceTerm(p[0]), c.pieceTerm(p[1]))
				if e == c.tFalse {
					return e
				}
				cs = append(cs, e)
			}
			return c.BAnd(cs...)
		}
	}
	if a.op == OLin || b.op == OLin {
		if r := c.linEq(a, b); r != nil {
			return r
		}
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return c.BIte(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.intern(&T{op: OEq, args: []*T{a, b}})
}

func depthLE(t *T, n int) bool {
	if n == 0 {
		return false
	}
	if t.op != OIte {
		return true
	}
	return depthLE(t.args[1], n-1) && depthLE(t.args[2], n-1)
}

// linEq: equality through the difference, splitting decimal positions.
func (c *Ctx) linEq(a, b *T) *T {
	okA := a.op != OLin || a.exact
	okB := b.op != OLin || b.exact
	if !okA || !okB || a.hi >= 1<<62 || b.hi >= 1<<62 {
		return nil
	}
	la := &linAcc{w: 64, co: map[*T]int64{}}
	c.linAdd(la, a, 1)
	c.linAdd(la, b, -1)
	L := &linAcc{w: 64, co: map[*T]int64{}}
	R := &linAcc{w: 64, co: map[*T]int64{}}
	for t, k := range la.co {
		if k > 0 {
			L.co[t] = k
		} else if k < 0 {
			R.co[t] = -k
		}
	}
	if k := int64(la.c); k > 0 {
		L.c = uint64(k)
	} else if k < 0 {
		R.c = uint64(-k)
	}
	l, r := c.finishLin(L), c.finishLin(R)
	if l.op == OLin && !l.exact || r.op == OLin && !r.exact {
		return nil
	}
	if l == r {
		return c.tTrue
	}
	if l.isConst() && r.isConst() {
		return c.Bool(l.c == r.c)
	}
	if l.hi < r.lo || r.hi < l.lo {
		return c.tFalse
	}
	// decimal split
	split := func(t *T) (q, rem *T, ok bool) {
		if t.isConst() {
			return c.Const(t.c/10, 64), c.Const(t.c%10, 64), true
		}
		if t.hi < 10 {
			return c.Const(0, 64), t, true
		}
		return c.splitLin(t, 10)
	}
	if l.hi >= 10 || r.hi >= 10 {
		ql, rl, ok1 := split(l)
		qr, rr, ok2 := split(r)
		if ok1 && ok2 {
			return c.BAnd(c.Eq(rl, rr), c.Eq(ql, qr))
		}
	}
	if l.op == OLin || r.op == OLin {
		// avoid recursion: build a raw equality
		if l.id > r.id {
			l, r = r, l
		}
		if l.isConst() {
			l, r = r, l
		}
		if r.isConst() && l.op == OLin && len(l.args) == 1 && l.exact {
			return c.Eq(l, r)
		}
		return c.intern(&T{op: OEq, args: []*T{l, r}})
	}
	if l == a && r == b || l == b && r == a {
		return nil
	}
	return c.Eq(l, r)
}

func (c *Ctx) Ult(a, b *T) *T {
	if a == b {
		return c.tFalse
	}
	if a.hi < b.lo {
		return c.tTrue
	}
	if a.lo >= b.hi {
		return c.tFalse
	}
	if b.isConst() {
		k := b.c
		if k == 1 {
			return c.Eq(a, c.Const(0, a.w))
		}
		if k&(k-1) == 0 {
			n := bits.TrailingZeros64(k)
			return c.Eq(c.Extract(a, n, a.w-n), c.Const(0, a.w-n))
		}
		if k == a.hi && a.lo < a.hi { // a < hi  <=> a != hi
			return c.Not(c.Eq(a, c.Const(k, a.w)))
		}
		if k == a.lo+1 {
			return c.Eq(a, c.Const(a.lo, a.w))
		}
	}
	if a.isConst() {
		k := a.c // k < b <=> !(b < k+1)
		if k != mask(a.w) {
			return c.Not(c.Ult(b, c.Const(k+1, a.w)))
		}
		return c.tFalse
	}
	if a.op == OIte && (b.isConst()) && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.BIte(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if b.isConst() && a.op == OLin && a.exact && len(a.args) == 1 && a.coefs[0] > 0 && b.c < 1<<62 {
		// k*x + c < b  <=> x < ceil((b-c)/k)
		k := a.coefs[0]
		d := int64(b.c) - signedConst(a.c, a.w)
		if d <= 0 {
			return c.tFalse
		}
		q := (d + k - 1) / k
		x := a.args[0]
		if uint64(q) > x.hi {
			return c.tTrue
		}
		return c.Ult(x, c.Const(uint64(q), x.w))
	}
	if b.isConst() {
		if n := ew(a); n > 0 && n < a.w {
			if b.c > mask(n) {
				return c.tTrue
			}
			a2 := c.Extract(a, 0, n)
			if a2.w < a.w {
				return c.Ult(a2, c.Const(b.c, n))
			}
		}
	}
	// narrow common leading zeros
	if n := maxInt(ew(a), ew(b)); n < a.w && n > 0 && !b.isConst() {
		a2, b2 := c.Extract(a, 0, n), c.Extract(b, 0, n)
		if a2.w < a.w {
			return c.Ult(a2, b2)
		}
	}
	return c.intern(&T{op: OUlt, args: []*T{a, b}})
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (c *Ctx) Ule(a, b *T) *T { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *T) *T {
	if a == b {
		return c.tFalse
	}
	if a.isConst() && b.isConst() {
		return c.Bool(signedConst(a.c, a.w) < signedConst(b.c, b.w))
	}
	s := uint64(1) << uint(a.w-1)
	if a.hi < s && b.hi < s {
		return c.Ult(a, b)
	}
	// one side constant zero: sign bit
	if b.isConst() && b.c == 0 {
		return c.bitIsOne(c.Extract(a, a.w-1, 1))
	}
	if a.isConst() && a.c == mask(a.w) { // -1 < b  <=> b >= 0
		return c.Not(c.bitIsOne(c.Extract(b, b.w-1, 1)))
	}
	if a.hi < s && b.lo >= s {
		return c.tFalse
	}
	if a.lo >= s && b.hi < s {
		return c.tTrue
	}
	if a.lo >= s && b.lo >= s {
		return c.Ult(a, b)
	}
	return c.intern(&T{op: OSlt, args: []*T{a, b}})
}
func (c *Ctx) Sle(a, b *T) *T { return c.Not(c.Slt(b, a)) }

// ---------- evaluation ----------

type Model map[*T]uint64

type evaluator struct {
	m    Model
	memo map[*T]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m, map[*T]uint64{}} }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaluator) eval(t *T) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OTrue:
		return 1
	case OFalse:
		return 0
	case OVar:
		if v, ok := e.m[t]; ok {
			return v
		}
		return t.lo
	case OBVar:
		return e.m[t]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	m := mask(t.w)
	switch t.op {
	case OCat:
		sh := 0
		for _, p := range t.pieces {
			v := p.c
			if p.a != nil {
				v = (e.eval(p.a) >> uint(p.lo)) & mask(p.w)
			}
			r |= v << uint(sh)
			sh += p.w
		}
	case OLin:
		r = t.c
		for i, a := range t.args {
			r += uint64(t.coefs[i]) * e.eval(a)
		}
		r &= m
	case OMul:
		r = e.eval(t.args[0]) * e.eval(t.args[1]) & m
	case OUDiv:
		b := e.eval(t.args[1])
		if b == 0 {
			r = m
		} else {
			r = e.eval(t.args[0]) / b
		}
	case OURem:
		b := e.eval(t.args[1])
		a := e.eval(t.args[0])
		if b == 0 {
			r = a
		} else {
			r = a % b
		}
	case OSDiv:
		a, b := signedConst(e.eval(t.args[0]), t.w), signedConst(e.eval(t.args[1]), t.w)
		if b == 0 {
			if a < 0 {
				r = 1
			} else {
				r = m
			}
		} else if b == -1 {
			r = uint64(-a) & m
		} else {
			r = uint64(a/b) & m
		}
	case OSRem:
		a, b := signedConst(e.eval(t.args[0]), t.w), signedConst(e.eval(t.args[1]), t.w)
		if b == 0 {
			r = uint64(a) & m
		} else if b == -1 {
			r = 0
		} else {
			r = uint64(a%b) & m
		}
	case OAnd:
		r = e.eval(t.args[0]) & e.eval(t.args[1])
	case OOr:
		r = e.eval(t.args[0]) | e.eval(t.args[1])
	case OXor:
		r = e.eval(t.args[0]) ^ e.eval(t.args[1])
	case OShl:
		s := e.eval(t.args[1])
		if s < uint64(t.w) {
			r = e.eval(t.args[0]) << s & m
		}
	case OLshr:
		s := e.eval(t.args[1])
		if s < uint64(t.w) {
			r = e.eval(t.args[0]) >> s
		}
	case OAshr:
		s := e.eval(t.args[1])
		if s >= uint64(t.w) {
			s = uint64(t.w - 1)
		}
		r = uint64(signedConst(e.eval(t.args[0]), t.w)>>s) & m
	case OIte, OBIte:
		if e.eval(t.args[0]) != 0 {
			r = e.eval(t.args[1])
		} else {
			r = e.eval(t.args[2])
		}
	case OB2V, OClip:
		r = e.eval(t.args[0])
	case ODigit:
		r = e.eval(t.args[0]) / pow10[t.c] % 10
	case ONot:
		r = 1 - e.eval(t.args[0])
	case OBAnd:
		r = 1
		for _, a := range t.args {
			if e.eval(a) == 0 {
				r = 0
				break
			}
		}
	case OBXor:
		r = e.eval(t.args[0]) ^ e.eval(t.args[1])
	case OEq:
		r = b2u(e.eval(t.args[0]) == e.eval(t.args[1]))
	case OUlt:
		r = b2u(e.eval(t.args[0]) < e.eval(t.args[1]))
	case OSlt:
		w := t.args[0].w
		r = b2u(signedConst(e.eval(t.args[0]), w) < signedConst(e.eval(t.args[1]), w))
	default:
		panic("eval: op")
	}
	e.memo[t] = r
	return r
}

func printTerm(t *T, d int) string {
	if t.op == OConst {
		return fmt.Sprintf("%d:%d", t.c, t.w)
	}
	if t.name != "" {
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	names := map[Op]string{OCat: "cat", OLin: "lin", OMul: "mul", OUDiv: "udiv", OURem: "urem", OSDiv: "sdiv", OSRem: "srem", OAnd: "and", OOr: "or", OXor: "xor", OShl: "shl", OLshr: "lshr", OAshr: "ashr", OIte: "ite", OB2V: "b2v", ODigit: "digit", OClip: "clip", OTrue: "true", OFalse: "false", ONot: "not", OBAnd: "band", OBIte: "bite", OEq: "eq", OUlt: "ult", OSlt: "slt", OBXor: "bxor"}
	s := "(" + names[t.op]
	if t.op == OCat {
		for i := len(t.pieces) - 1; i >= 0; i-- {
			p := t.pieces[i]
			if p.a == nil {
				s += fmt.Sprintf(" %0*b", p.w, p.c)
			} else {
				s += fmt.Sprintf(" %s[%d:%d]", printTerm(p.a, d-1), p.lo+p.w-1, p.lo)
			}
		}
	} else {
		for i, a := range t.args {
			s += " "
			if t.op == OLin {
				s += fmt.Sprintf("%d*", t.coefs[i])
			}
			s += printTerm(a, d-1)
		}
		if t.op == OLin || t.op == ODigit {
			s += fmt.Sprintf(" %d", signedConst(t.c, maxInt(t.w, 1)))
		}
	}
	return s + ")"
}

// hexChar is the character of a nibble.
func (c *Ctx) hexChar(nib *T, upper bool) *T {
	al := uint64('a' - 10)
	if upper {
		al = 'A' - 10
	}
	d8 := c.Zext(nib, 8)
	r := c.Ite(c.Ult(d8, c.Const(10, 8)), c.Add(d8, c.Const('0', 8)), c.Add(d8, c.Const(al, 8)))
	if !r.isConst() {
		c.hexOf[r] = c.Extract(d8, 0, 4)
	}
	return r
}

func (t *T) setSup() {
	switch t.op {
	case OVar, OBVar:
		t.sup = t
		return
	case OClip:
		t.sup = supMany // its range depends on the path
		return
	}
	add := func(a *T) {
		if a.sup == nil || a.sup == t.sup {
			return
		}
		if t.sup == nil {
			t.sup = a.sup
		} else {
			t.sup = supMany
		}
	}
	for _, a := range t.args {
		add(a)
	}
	for _, p := range t.pieces {
		if p.a != nil {
			add(p.a)
		}
	}
}

type tabTerm struct {
	t   *T
	tab []uint64
}

// sameTable finds an earlier term which has the same value as t, a conditional
// over one small variable, for each value of the variable.
func (c *Ctx) sameTable(t *T) *T {
	if len(c.tabs) > 100000 {
		return nil
	}
	tab := c.table(t, t.sup)
	h := hmix(uint64(t.sup.id), uint64(t.w))
	for _, v := range tab {
		h = hmix(h, v)
	}
	for _, u := range c.byTab[h] {
		if u.t.sup != t.sup || u.t.w != t.w || len(u.tab) != len(tab) {
			continue
		}
		same := true
		for i := range tab {
			if tab[i] != u.tab[i] {
				same = false
				break
			}
		}
		if same {
			return u.t
		}
	}
	c.byTab[h] = append(c.byTab[h], tabTerm{t, tab})
	c.tabs[t] = tab
	return nil
}

func (c *Ctx) table(t, v *T) []uint64 {
	out := make([]uint64, 0, v.hi-v.lo+1)
	for x := v.lo; x <= v.hi; x++ {
		e := &evaluator{Model{v: x}, map[*T]uint64{}}
		e.tab(c, t, v, x)
		out = append(out, e.eval(t))
	}
	return out
}

// tab seeds the memo with the tables of conditionals t is made of
func (e *evaluator) tab(c *Ctx, t, v *T, x uint64) {
	for _, a := range t.args {
		if a.op == OIte {
			if tb, ok := c.tabs[a]; ok {
				e.memo[a] = tb[x-v.lo]
			}
		}
	}
}
