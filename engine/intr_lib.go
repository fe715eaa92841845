package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// blockOn makes the calling goroutine wait; the call is executed again afterwards.
type blockOn struct {
	ready func(ex *Exec, st *State) bool
}

func (ex *Exec) k64(n int) *T { return ex.ctx.Const(uint64(int64(n)), 64) }

func strPanic(s string) goPanic { return goPanic{Iface{t: types.Typ[types.String], v: Str{s: s}}} }

func (ex *Exec) strSlice(st *State, v Value) []Str {
	s := v.(Slice)
	if s.len == 0 {
		return nil
	}
	o := ex.obj(st, s.obj)
	var out []Str
	for i := 0; i < s.len; i++ {
		out = append(out, o.slots[s.off+i].(Str))
	}
	return out
}

func (ex *Exec) newStrSlice(st *State, ss []Str) Slice {
	slots := make([]Value, len(ss))
	for i, s := range ss {
		slots[i] = s
	}
	id := st.alloc(slots, types.Typ[types.String])
	return Slice{id, 0, len(ss), len(ss), 1}
}

func (ex *Exec) newBytes(st *State, ts []*T) Slice {
	slots := make([]Value, len(ts))
	for i, s := range ts {
		slots[i] = s
	}
	id := st.alloc(slots, types.Typ[types.Uint8])
	return Slice{id, 0, len(ts), len(ts), 1}
}

func (ex *Exec) bytesOf(st *State, v Value) []*T {
	switch s := v.(type) {
	case Str:
		return ex.strTerms(s)
	case Slice:
		if s.len == 0 {
			return nil
		}
		o := ex.obj(st, s.obj)
		out := make([]*T, s.len)
		for i := range out {
			out[i] = o.slots[s.off+i].(*T)
		}
		return out
	}
	panic(unsupported("bytes of value"))
}

// findStr: index of the first occurrence of sep in s at or after from, forking.
func (ex *Exec) findStr(st *State, s, sep Str, from int) int {
	n, k := s.length(), sep.length()
	for i := from; i+k <= n; i++ {
		if ex.decide(st, ex.strEq(ex.substr(s, i, i+k), sep)) {
			return i
		}
	}
	return -1
}

func (ex *Exec) asciiMap(st *State, s Str, f func(c *T) *T, conc func(string) string) Str {
	if s.t == nil {
		return Str{s: conc(s.s)}
	}
	out := make([]*T, len(s.t))
	for i, t := range s.t {
		if t.hi >= 0x80 && !ex.decide(st, ex.ctx.Ult(t, ex.ctx.Const(0x80, 8))) {
			panic(unsupported("case mapping of non-ASCII text"))
		}
		if t.isConst() {
			out[i] = ex.ctx.Const(uint64(conc(string(rune(t.c)))[0]), 8)
		} else {
			out[i] = f(t)
		}
	}
	return mkStr(out)
}

func (ex *Exec) inRange(t *T, lo, hi uint64) *T {
	return ex.ctx.BAnd(ex.ctx.Ule(ex.ctx.Const(lo, t.w), t), ex.ctx.Ule(t, ex.ctx.Const(hi, t.w)))
}

func init() {
	reg("strings.Repeat", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		n := ex.concInt(st, a[1])
		if n < 0 {
			panic(strPanic("strings: negative Repeat count"))
		}
		s := a[0].(Str)
		if n*s.length() > 1<<16 {
			panic(killPath{"strings.Repeat larger than 64 KiB"})
		}
		if s.t == nil {
			return Str{s: strings.Repeat(s.s, n)}
		}
		out := Str{}
		for i := 0; i < n; i++ {
			out = ex.concat(out, s)
		}
		return out
	})
	reg("strings.Join", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		out := Str{}
		for i, s := range ex.strSlice(st, a[0]) {
			if i > 0 {
				out = ex.concat(out, a[1].(Str))
			}
			out = ex.concat(out, s)
		}
		return out
	})
	split := func(ex *Exec, st *State, s, sep Str, n int) Value {
		if n == 0 {
			return Slice{}
		}
		var out []Str
		if sep.length() == 0 {
			if s.t != nil {
				panic(unsupported("strings.Split with an empty separator"))
			}
			for _, p := range strings.SplitN(s.s, "", n) {
				out = append(out, Str{s: p})
			}
			return ex.newStrSlice(st, out)
		}
		from := 0
		for n < 0 || len(out) < n-1 {
			i := ex.findStr(st, s, sep, from)
			if i < 0 {
				break
			}
			out = append(out, ex.substr(s, from, i))
			from = i + sep.length()
		}
		out = append(out, ex.substr(s, from, s.length()))
		return ex.newStrSlice(st, out)
	}
	reg("strings.Split", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return split(ex, st, a[0].(Str), a[1].(Str), -1)
	})
	reg("strings.SplitN", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return split(ex, st, a[0].(Str), a[1].(Str), ex.concInt(st, a[2]))
	})
	reg("strings.ToUpper", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.asciiMap(st, a[0].(Str), func(t *T) *T {
			return ex.ctx.Ite(ex.inRange(t, 'a', 'z'), ex.ctx.Sub(t, ex.ctx.Const(32, 8)), t)
		}, strings.ToUpper)
	})
	reg("strings.ToLower", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.asciiMap(st, a[0].(Str), func(t *T) *T {
			return ex.ctx.Ite(ex.inRange(t, 'A', 'Z'), ex.ctx.Add(t, ex.ctx.Const(32, 8)), t)
		}, strings.ToLower)
	})
	replace := func(ex *Exec, st *State, s, old, nw Str, n int) Value {
		if s.t == nil && old.t == nil && nw.t == nil {
			return Str{s: strings.Replace(s.s, old.s, nw.s, n)}
		}
		if old.length() == 0 {
			panic(unsupported("strings.Replace of the empty string"))
		}
		out := Str{}
		from, cnt := 0, 0
		for n < 0 || cnt < n {
			i := ex.findStr(st, s, old, from)
			if i < 0 {
				break
			}
			out = ex.concat(ex.concat(out, ex.substr(s, from, i)), nw)
			from = i + old.length()
			cnt++
		}
		return ex.concat(out, ex.substr(s, from, s.length()))
	}
	reg("strings.Replace", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return replace(ex, st, a[0].(Str), a[1].(Str), a[2].(Str), ex.concInt(st, a[3]))
	})
	reg("strings.ReplaceAll", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return replace(ex, st, a[0].(Str), a[1].(Str), a[2].(Str), -1)
	})
	reg("strings.Index", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		if h, n := a[0].(Str), a[1].(Str); h.t == nil && n.t != nil && len(n.t) == 1 && len(h.s) > 2 {
			if pos, ok := ex.tableIndex(st, h.s, n.t[0]); ok {
				return pos
			}
			return ex.k64(-1)
		}
		return ex.k64(ex.findStr(st, a[0].(Str), a[1].(Str), 0))
	})
	reg("strings.Contains", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.ctx.Bool(ex.findStr(st, a[0].(Str), a[1].(Str), 0) >= 0)
	})
	idxByte := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		if h, ok := a[0].(Str); ok && h.t == nil && !a[1].(*T).isConst() && len(h.s) > 2 {
			if pos, ok := ex.tableIndex(st, h.s, ex.ctx.Extract(a[1].(*T), 0, 8)); ok {
				return pos
			}
			return ex.k64(-1)
		}
		ts := ex.bytesOf(st, a[0])
		b := a[1].(*T)
		for i, t := range ts {
			if ex.decide(st, ex.ctx.Eq(t, ex.ctx.Extract(b, 0, 8))) {
				return ex.k64(i)
			}
		}
		return ex.k64(-1)
	}
	for _, n := range []string{"strings.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, idxByte)
	}
	reg("internal/bytealg.MakeNoZero", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		n := ex.concInt(st, a[0])
		ts := make([]*T, n)
		for i := range ts {
			ts[i] = ex.ctx.Const(0, 8)
		}
		return ex.newBytes(st, ts)
	})
	reg("internal/abi.NoEscape", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value { return a[0] })
	count := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, t := range ex.bytesOf(st, a[0]) {
			if ex.decide(st, ex.ctx.Eq(t, ex.ctx.Extract(a[1].(*T), 0, 8))) {
				n++
			}
		}
		return ex.k64(n)
	}
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.Equal", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.strEq(mkStr(ex.bytesOf(st, a[0])), mkStr(ex.bytesOf(st, a[1])))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	cmp := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(ex.bytesOf(st, a[0])), mkStr(ex.bytesOf(st, a[1]))
		if ex.decide(st, ex.strLess(x, y)) {
			return ex.k64(-1)
		}
		if ex.decide(st, ex.strEq(x, y)) {
			return ex.k64(0)
		}
		return ex.k64(1)
	}
	reg("strings.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	// functions used on concrete text only
	s1 := func(f func(string) Value) intrinsic {
		return func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			s, ok := cstr(a[0])
			if !ok {
				return notHandled{}
			}
			return f(s)
		}
	}
	reg("strings.TrimSpace", s1(func(s string) Value { return Str{s: strings.TrimSpace(s)} }))
	reg("strings.Title", s1(func(s string) Value { return Str{s: strings.Title(s)} }))
	reg("strconv.Quote", s1(func(s string) Value { return Str{s: strconv.Quote(s)} }))

	// ---- strconv ----
	reg("strconv.Itoa", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.fmtArg(st, 'd', fmtFlags{}, Iface{types.Typ[types.Int], a[0]}, false)
	})
	fmtBase := func(ex *Exec, st *State, v Value, base int, t types.Type) Value {
		verb := byte('d')
		switch base {
		case 2:
			verb = 'b'
		case 8:
			verb = 'o'
		case 16:
			verb = 'x'
		case 10:
		default:
			panic(unsupported("strconv base"))
		}
		return ex.fmtArg(st, verb, fmtFlags{}, Iface{t, v}, false)
	}
	reg("strconv.FormatInt", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return fmtBase(ex, st, a[0], ex.concInt(st, a[1]), types.Typ[types.Int64])
	})
	reg("strconv.FormatUint", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return fmtBase(ex, st, a[0], ex.concInt(st, a[1]), types.Typ[types.Uint64])
	})
	reg("strconv.ParseInt", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.parseNum(st, a[0].(Str), ex.concInt(st, a[1]), ex.concInt(st, a[2]), true, "ParseInt")
	})
	reg("strconv.ParseUint", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.parseNum(st, a[0].(Str), ex.concInt(st, a[1]), ex.concInt(st, a[2]), false, "ParseUint")
	})
	reg("strconv.Atoi", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.parseNum(st, a[0].(Str), 10, 64, true, "Atoi")
	})

	// ---- math ----
	m1 := map[string]func(float64) float64{"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Log2": math.Log2, "math.Log10": math.Log10, "math.Log": math.Log, "math.Sqrt": math.Sqrt, "math.Abs": math.Abs, "math.Exp": math.Exp, "math.Exp2": math.Exp2, "math.Round": math.Round}
	for n, f := range m1 {
		f := f
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			x := a[0].(Flt)
			if x.sym() {
				panic(unsupported("math function of a symbolic float"))
			}
			return Flt{c: f(x.c)}
		})
	}
	m2 := map[string]func(a, b float64) float64{"math.Pow": math.Pow, "math.Max": math.Max, "math.Min": math.Min, "math.Mod": math.Mod}
	for n, f := range m2 {
		n, f := n, f
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Flt), a[1].(Flt)
			if n == "math.Pow" && !x.sym() && x.c == 2 && y.t != nil && y.d == 0 && y.q == nil {
				// 2^i for a small symbolic exponent
				i := ex.concretize(st, y.t)
				return Flt{c: math.Pow(2, float64(int64(i)))}
			}
			if x.sym() || y.sym() {
				panic(unsupported("math function of a symbolic float"))
			}
			return Flt{c: f(x.c, y.c)}
		})
	}
	reg("math.IsNaN", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x := a[0].(Flt)
		return ex.ctx.Bool(!x.sym() && math.IsNaN(x.c))
	})
	reg("math.IsInf", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x := a[0].(Flt)
		s := ex.concInt(st, a[1])
		return ex.ctx.Bool(!x.sym() && math.IsInf(x.c, s))
	})
	reg("math.Float64bits", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x := a[0].(Flt)
		if x.sym() {
			panic(unsupported("Float64bits"))
		}
		return ex.ctx.Const(math.Float64bits(x.c), 64)
	})

	// ---- errors, runtime ----
	reg("runtime.Caller", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return Tup{ex.ctx.Const(0, 64), Str{s: "/x/file.go"}, ex.k64(1), ex.ctx.tTrue}
	})
	reg("runtime.GC", nop)
	reg("runtime.Gosched", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.KeepAlive", nop)
	reg("internal/race.Acquire", nop)

	// ---- log, os ----
	for _, n := range []string{"log.Print", "log.Printf", "log.Println", "log.SetFlags", "log.SetPrefix", "log.SetOutput", "math/rand.Seed", "(*log.Logger).Printf", "(*log.Logger).Println", "(*log.Logger).Print"} {
		reg(n, nop)
	}
	exit := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		if ex.exitBad {
			ex.report(st, "exit", "the process ends: "+fn.String(), nil)
		}
		ex.endPath(st, "exit")
		panic(killPath{"infeasible"})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf"} {
		reg(n, exit)
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		reg(n, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			panic(strPanic("log.Panic"))
		})
	}
	reg("os.Getenv", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value { return Str{} })

	// ---- random ----
	reg("math/rand.Intn", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		n := ex.concInt(st, a[0])
		if n <= 0 {
			panic(strPanic("invalid argument to Intn"))
		}
		if n&(n-1) == 0 && n > 1 {
			w := 0
			for 1<<uint(w) < n {
				w++
			}
			return ex.ctx.Zext(ex.freshVar(st, "rand", w, 0, uint64(n-1)), 64)
		}
		return ex.freshVar(st, "rand", 64, 0, uint64(n-1))
	})

	// random bits of at most max: the real function draws again until the value fits
	reg("github.com/iomz/go-llrp/binutil.GenerateNLengthRandomBinRuneSlice", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		n := ex.concInt(st, a[0])
		max := uint64(ex.concInt(st, a[1]))
		if n < 0 || n > 64 {
			return notHandled{}
		}
		c := ex.ctx
		runes := make([]Value, n)
		var sum *T = c.Const(0, 64)
		for i := 0; i < n; i++ {
			if max != 0 && n-i < 64 && max < uint64(1)<<uint(n-i) {
				runes[i] = c.Const('0', 32)
				continue
			}
			b := ex.freshVar(st, "rand", 1, 0, 1)
			runes[i] = c.Add(c.Const('0', 32), c.Zext(b, 32))
			sum = c.Add(sum, c.Shl(c.Zext(b, 64), c.Const(uint64(n-i-1), 64)))
		}
		if max != 0 {
			ex.assume(st, c.Ule(sum, c.Const(max, 64)))
		}
		id := st.alloc(runes, types.Typ[types.Int32])
		return Tup{Slice{id, 0, n, n, 1}, sum}
	})

	// ---- sort ----
	sortStr := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Slice)
		if !ok {
			panic(unsupported("sort"))
		}
		if s.len < 2 {
			return nil
		}
		o := ex.obj(st, s.obj)
		vals := append([]Value(nil), o.slots[s.off:s.off+s.len]...)
		switch vals[0].(type) {
		case Str:
			conc := true
			for _, v := range vals {
				if v.(Str).t != nil {
					conc = false
				}
			}
			if conc {
				sort.Slice(vals, func(i, j int) bool { return vals[i].(Str).s < vals[j].(Str).s })
			} else {
				for i := 1; i < len(vals); i++ {
					for j := i; j > 0 && ex.decide(st, ex.strLess(vals[j].(Str), vals[j-1].(Str))); j-- {
						vals[j], vals[j-1] = vals[j-1], vals[j]
					}
				}
			}
		case *T:
			for i := 1; i < len(vals); i++ {
				for j := i; j > 0 && ex.decide(st, ex.ctx.Slt(vals[j].(*T), vals[j-1].(*T))); j-- {
					vals[j], vals[j-1] = vals[j-1], vals[j]
				}
			}
		default:
			return notHandled{}
		}
		copy(st.heap.mut(s.obj).slots[s.off:], vals)
		return nil
	}
	reg("sort.Strings", sortStr)
	reg("sort.Ints", sortStr)
	reg("slices.Sort", sortStr)
	reg("sort.Sort", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		if i, ok := a[0].(Iface); ok && (i.t.String() == "sort.StringSlice" || i.t.String() == "sort.IntSlice") {
			return sortStr(ex, st, call, fn, []Value{i.v})
		}
		return notHandled{}
	})
	// sort.Slice: insertion sort with calls of less
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- big ----
	reg("math/big.NewInt", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		t := a[0].(*T)
		neg := ex.decide(st, ex.ctx.Slt(t, ex.ctx.Const(0, 64)))
		if neg {
			t = ex.ctx.Neg(t)
		}
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		sl := ex.zeroSlots(pt.Elem())
		sl[0] = BigV{neg, t}
		return Ptr{obj: st.alloc(sl, pt.Elem())}
	})
	setBig := func(ex *Exec, st *State, p Value, b BigV) Value {
		q := p.(Ptr)
		if q.obj == 0 {
			panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
		}
		ex.obj(st, q.obj)
		st.heap.mut(q.obj).slots[q.off] = b
		return p
	}
	B := func(name string, f intrinsic) { reg("(*math/big.Int)."+name, f) }
	B("SetBytes", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ts := ex.bytesOf(st, a[1])
		c := ex.ctx
		for len(ts) > 8 {
			if !ex.decide(st, c.Eq(ts[0], c.Const(0, 8))) {
				panic(unsupported("big.Int wider than 64 bits"))
			}
			ts = ts[1:]
		}
		v := c.Const(0, 0+8)
		if len(ts) > 0 {
			v = ts[0]
			for _, t := range ts[1:] {
				v = c.Concat(v, t)
			}
		}
		return setBig(ex, st, a[0], BigV{false, c.Zext(v, 64)})
	})
	B("SetInt64", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		t := a[1].(*T)
		neg := ex.decide(st, ex.ctx.Slt(t, ex.ctx.Const(0, 64)))
		if neg {
			t = ex.ctx.Neg(t)
		}
		return setBig(ex, st, a[0], BigV{neg, t})
	})
	B("SetUint64", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return setBig(ex, st, a[0], BigV{false, a[1].(*T)})
	})
	B("Set", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, _ := ex.bigVal(st, a[1])
		return setBig(ex, st, a[0], b)
	})
	B("SetString", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s := a[1].(Str)
		base := ex.concInt(st, a[2])
		if s.t == nil {
			v, ok := new(big.Int).SetString(s.s, base)
			if !ok {
				return Tup{Ptr{}, ex.ctx.tFalse}
			}
			if v.BitLen() > 64 {
				panic(unsupported("big.Int wider than 64 bits"))
			}
			setBig(ex, st, a[0], BigV{v.Sign() < 0, ex.ctx.Const(new(big.Int).Abs(v).Uint64(), 64)})
			return Tup{a[0], ex.ctx.tTrue}
		}
		v, cls := ex.digits(st, s, base)
		switch cls {
		case 0:
			setBig(ex, st, a[0], BigV{false, v})
			return Tup{a[0], ex.ctx.tTrue}
		case 1:
			return Tup{Ptr{}, ex.ctx.tFalse}
		}
		panic(unsupported("big.Int wider than 64 bits"))
	})
	B("String", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, nilp := ex.bigVal(st, a[0])
		if nilp {
			return Str{s: "<nil>"}
		}
		return ex.fmtUint(st, 'd', fmtFlags{}, b.mag, b.neg, types.Typ[types.Int])
	})
	B("Text", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, nilp := ex.bigVal(st, a[0])
		if nilp {
			return Str{s: "<nil>"}
		}
		verb := map[int]byte{10: 'd', 2: 'b', 16: 'x', 8: 'o'}[ex.concInt(st, a[1])]
		if verb == 0 {
			panic(unsupported("big.Int base"))
		}
		return ex.fmtUint(st, verb, fmtFlags{}, b.mag, b.neg, types.Typ[types.Int])
	})
	val := func(ex *Exec, b BigV) *T {
		if b.neg {
			return ex.ctx.Neg(b.mag)
		}
		return b.mag
	}
	B("Int64", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, _ := ex.bigVal(st, a[0])
		return val(ex, b)
	})
	B("Uint64", intrinsics["(*math/big.Int).Int64"])
	B("IsInt64", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, _ := ex.bigVal(st, a[0])
		return ex.ctx.Ult(b.mag, ex.ctx.Const(1<<63, 64))
	})
	B("IsUint64", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, _ := ex.bigVal(st, a[0])
		return ex.ctx.Bool(!b.neg)
	})
	B("Sign", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, _ := ex.bigVal(st, a[0])
		if ex.decide(st, ex.ctx.Eq(b.mag, ex.ctx.Const(0, 64))) {
			return ex.k64(0)
		}
		if b.neg {
			return ex.k64(-1)
		}
		return ex.k64(1)
	})
	B("BitLen", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		b, _ := ex.bigVal(st, a[0])
		n := ew(b.mag)
		for n > 0 && ex.decide(st, ex.ctx.Eq(ex.ctx.Extract(b.mag, n-1, 1), ex.ctx.Const(0, 1))) {
			n--
		}
		return ex.k64(n)
	})
	B("Cmp", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x, _ := ex.bigVal(st, a[0])
		y, _ := ex.bigVal(st, a[1])
		if x.neg || y.neg {
			panic(unsupported("big.Int.Cmp of negative numbers"))
		}
		if ex.decide(st, ex.ctx.Ult(x.mag, y.mag)) {
			return ex.k64(-1)
		}
		if ex.decide(st, ex.ctx.Eq(x.mag, y.mag)) {
			return ex.k64(0)
		}
		return ex.k64(1)
	})
	arith := func(name string, f func(ex *Exec, st *State, x, y *T) *T) {
		B(name, func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			x, _ := ex.bigVal(st, a[1])
			y, _ := ex.bigVal(st, a[2])
			if x.neg || y.neg {
				panic(unsupported("big.Int arithmetic on negative numbers"))
			}
			return setBig(ex, st, a[0], BigV{false, f(ex, st, x.mag, y.mag)})
		})
	}
	arith("Add", func(ex *Exec, st *State, x, y *T) *T {
		if x.hi+y.hi < x.hi {
			panic(unsupported("big.Int wider than 64 bits"))
		}
		return ex.ctx.Add(x, y)
	})
	arith("Mul", func(ex *Exec, st *State, x, y *T) *T {
		if y.hi != 0 && x.hi > ^uint64(0)/y.hi {
			panic(unsupported("big.Int wider than 64 bits"))
		}
		return ex.ctx.Mul(x, y)
	})
	arith("Or", func(ex *Exec, st *State, x, y *T) *T { return ex.ctx.Or2(x, y) })
	arith("And", func(ex *Exec, st *State, x, y *T) *T { return ex.ctx.And2(x, y) })
	arith("Xor", func(ex *Exec, st *State, x, y *T) *T { return ex.ctx.Xor2(x, y) })
	div := func(rem bool) func(ex *Exec, st *State, x, y *T) *T {
		return func(ex *Exec, st *State, x, y *T) *T {
			if ex.decide(st, ex.ctx.Eq(y, ex.ctx.Const(0, 64))) {
				panic(strPanic("division by zero"))
			}
			if rem {
				return ex.ctx.URem(x, y)
			}
			return ex.ctx.UDiv(x, y)
		}
	}
	arith("Div", div(false))
	arith("Quo", div(false))
	arith("Mod", div(true))
	arith("Rem", div(true))
	sh := func(left bool) intrinsic {
		return func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			x, _ := ex.bigVal(st, a[1])
			n := ex.concInt(st, a[2])
			if x.neg {
				panic(unsupported("big.Int shift of a negative number"))
			}
			r := x.mag
			if left {
				if ew(r)+n > 64 {
					panic(unsupported("big.Int wider than 64 bits"))
				}
				r = ex.ctx.ShlC(r, n)
			} else {
				r = ex.ctx.LshrC(r, n)
			}
			return setBig(ex, st, a[0], BigV{false, r})
		}
	}
	B("Lsh", sh(true))
	B("Rsh", sh(false))
	B("Bit", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x, _ := ex.bigVal(st, a[0])
		i := ex.concInt(st, a[1])
		if i >= 64 {
			return ex.ctx.Const(0, 64)
		}
		return ex.ctx.Zext(ex.ctx.Extract(x.mag, i, 1), 64)
	})
	B("Bytes", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		x, _ := ex.bigVal(st, a[0])
		n := 8
		for n > 0 && ex.decide(st, ex.ctx.Eq(ex.ctx.Extract(x.mag, n*8-8, 8), ex.ctx.Const(0, 8))) {
			n--
		}
		var ts []*T
		for i := n - 1; i >= 0; i-- {
			ts = append(ts, ex.ctx.Extract(x.mag, i*8, 8))
		}
		return ex.newBytes(st, ts)
	})

	// ---- regexp (single negated character class) ----
	reg("regexp.MustCompile", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s, ok := cstr(a[0])
		if !ok {
			panic(unsupported("symbolic regexp"))
		}
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		sl := ex.zeroSlots(pt.Elem())
		sl[0] = Str{s: s}
		return Ptr{obj: st.alloc(sl, pt.Elem())}
	})
	find := func(ex *Exec, st *State, p Value, s Str) (int, int) {
		pat := ex.obj(st, p.(Ptr).obj).slots[0].(Str).s
		re := regexp.MustCompile(pat)
		if s.t == nil {
			m := re.FindStringIndex(s.s)
			if m == nil {
				return -1, -1
			}
			return m[0], m[1]
		}
		if !(strings.HasPrefix(pat, "[") && strings.Index(pat, "]") == len(pat)-1) {
			panic(unsupported("regexp on symbolic text"))
		}
		c := ex.ctx
		hexFree := -1
		for i, t := range s.t {
			if c.hexOf[t] != nil {
				if hexFree < 0 {
					hexFree = 0
					if !re.MatchString("0123456789abcdefABCDEF") {
						hexFree = 1
					}
				}
				if hexFree == 1 {
					continue
				}
			}
			if t.hi >= 0x80 && !ex.decide(st, c.Ult(t, c.Const(0x80, 8))) {
				panic(unsupported("regexp on non-ASCII text"))
			}
			var in []*T
			for v := 0; v < 128; {
				if !re.MatchString(string(rune(v))) {
					v++
					continue
				}
				j := v
				for j+1 < 128 && re.MatchString(string(rune(j+1))) {
					j++
				}
				in = append(in, ex.inRange(t, uint64(v), uint64(j)))
				v = j + 1
			}
			if ex.decide(st, c.BOr(in...)) {
				return i, i + 1
			}
		}
		return -1, -1
	}
	reg("(*regexp.Regexp).FindStringIndex", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i, j := find(ex, st, a[0], a[1].(Str))
		if i < 0 {
			return Slice{}
		}
		id := st.alloc([]Value{ex.k64(i), ex.k64(j)}, types.Typ[types.Int])
		return Slice{id, 0, 2, 2, 1}
	})
	reg("(*regexp.Regexp).MatchString", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		i, _ := find(ex, st, a[0], a[1].(Str))
		return ex.ctx.Bool(i >= 0)
	})

	// ---- bytes.Buffer, binary ----
	wr := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ts := ex.bytesOf(st, a[1])
		ex.noGob(st, a[0])
		ex.appendBuffer(st, a[0].(Ptr), mkStr(ts), "*bytes.Buffer")
		return Tup{ex.k64(len(ts)), Iface{}}
	}
	reg("(*bytes.Buffer).Write", wr)
	reg("(*bytes.Buffer).WriteString", wr)
	reg("(*bytes.Buffer).WriteByte", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ex.appendBuffer(st, a[0].(Ptr), mkStr([]*T{a[1].(*T)}), "*bytes.Buffer")
		return Iface{}
	})
	reg("(*strings.Builder).WriteString", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ex.appendBuffer(st, a[0].(Ptr), a[1].(Str), "*strings.Builder")
		return Tup{ex.k64(a[1].(Str).length()), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ex.appendBuffer(st, a[0].(Ptr), mkStr([]*T{a[1].(*T)}), "*strings.Builder")
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s := ex.runeToStr(st, ex.ctx.Sext(a[1].(*T), 64))
		ex.appendBuffer(st, a[0].(Ptr), s, "*strings.Builder")
		return Tup{ex.k64(s.length()), Iface{}}
	})
	reg("(*strings.Builder).Write", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		ts := ex.bytesOf(st, a[1])
		ex.appendBuffer(st, a[0].(Ptr), mkStr(ts), "*strings.Builder")
		return Tup{ex.k64(len(ts)), Iface{}}
	})
	reg("(*strings.Builder).Grow", nop)
	// vpPack(data, big): the bytes of fixed-size data
	reg("vpPack", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		d := a[0].(Iface)
		ts, ok := []*T(nil), false
		if d.t != nil {
			ts, ok = ex.binaryBytes(st, d.t, d.v, a[1].(*T) == ex.ctx.tTrue)
		}
		return Tup{ex.newBytes(st, ts), ex.ctx.Bool(ok)}
	})
	// vpPackedSize(data): how many bytes binary.Read reads for data; -1 if it can't
	reg("vpPackedSize", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		n := -1
		d := a[0].(Iface)
		if d.t != nil {
			switch u := d.t.Underlying().(type) {
			case *types.Pointer:
				n = packedSize(u.Elem())
			case *types.Slice:
				if n = packedSize(u.Elem()); n >= 0 {
					n *= d.v.(Slice).len
				}
			}
		}
		return ex.k64(n)
	})
	// vpUnpack(data, b, big)
	reg("vpUnpack", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		d := a[0].(Iface)
		ts := ex.bytesOf(st, a[1])
		big := a[2].(*T) == ex.ctx.tTrue
		switch u := d.t.Underlying().(type) {
		case *types.Pointer:
			p := d.v.(Ptr)
			vals, _ := ex.unpack(u.Elem(), ts, big)
			copy(st.heap.mut(p.obj).slots[p.off:], vals)
		case *types.Slice:
			sl := d.v.(Slice)
			for i := 0; i < sl.len; i++ {
				var vals []Value
				vals, ts = ex.unpack(u.Elem(), ts, big)
				copy(st.heap.mut(sl.obj).slots[sl.off+i*sl.es:], vals)
			}
		}
		return nil
	})

	// ---- time ----
	reg("(time.Time).UTC", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value { return a[0] })

	// ---- reflect ----
	reg("reflect.DeepEqual", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.deepIface(st, a[0].(Iface), a[1].(Iface), 0)
	})
}

// tableIndex is the position of an unknown character in a known table.
func (ex *Exec) tableIndex(st *State, table string, b *T) (*T, bool) {
	c := ex.ctx
	in := c.tFalse
	pos := ex.k64(0)
	for i := len(table) - 1; i >= 0; i-- {
		e := c.Eq(b, c.Const(uint64(table[i]), 8))
		in = c.BOr(in, e)
		pos = c.Ite(e, ex.k64(i), pos)
	}
	return pos, ex.decide(st, in)
}

func nop(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
	return ex.zeroResult(fn.Signature)
}

func (ex *Exec) bigVal(st *State, v Value) (BigV, bool) {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("big.Int value"))
	}
	if p.obj == 0 {
		return BigV{}, true
	}
	if b, ok := ex.obj(st, p.obj).slots[p.off].(BigV); ok {
		return b, false
	}
	return BigV{false, ex.ctx.Const(0, 64)}, false
}

// binaryBytes is what binary.Write writes.
func (ex *Exec) binaryBytes(st *State, t types.Type, v Value, bigE bool) ([]*T, bool) {
	var slots []Value
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		var out []*T
		if packedSize(u.Elem()) < 0 {
			return nil, false
		}
		for i := 0; i < s.len; i++ {
			o := s.off + i*s.es
			out, _ = ex.pack(u.Elem(), ex.obj(st, s.obj).slots[o:o+s.es], bigE, out)
		}
		return out, true
	case *types.Pointer:
		t = u.Elem()
		p := v.(Ptr)
		if packedSize(t) < 0 {
			return nil, false
		}
		slots = ex.obj(st, p.obj).slots[p.off : p.off+ex.lay.sizeof(t)]
	default:
		if packedSize(t) < 0 {
			return nil, false
		}
		if isAgg(t) {
			slots = v.(Agg)
		} else {
			slots = []Value{v}
		}
	}
	out, _ := ex.pack(t, slots, bigE, nil)
	return out, true
}

// packedSize is binary.Size of a value of the type.
func packedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		w, _ := intWidth(u)
		if w == 0 || u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return -1
		}
		return w / 8
	case *types.Array:
		if n := packedSize(u.Elem()); n >= 0 {
			return n * int(u.Len())
		}
	case *types.Struct:
		sum := 0
		for i := 0; i < u.NumFields(); i++ {
			n := packedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			sum += n
		}
		return sum
	}
	return -1
}

// pack appends the bytes of the value in the first slots.
func (ex *Exec) pack(t types.Type, slots []Value, bigE bool, out []*T) ([]*T, []Value) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		for i := 0; i < int(u.Len()); i++ {
			out, slots = ex.pack(u.Elem(), slots, bigE, out)
		}
		return out, slots
	case *types.Struct:
		rest := slots[ex.lay.sizeof(u):]
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i).Type()
			o := ex.lay.fieldOff(u, i)
			out, _ = ex.pack(f, slots[o:o+ex.lay.sizeof(f)], bigE, out)
		}
		return out, rest
	}
	b := t.Underlying().(*types.Basic)
	v, ok := slots[0].(*T)
	if !ok {
		panic(unsupported("binary.Write of " + t.String()))
	}
	if b.Info()&types.IsBoolean != 0 {
		return append(out, ex.ctx.Zext(ex.ctx.B2V(v), 8)), slots[1:]
	}
	w, _ := intWidth(b)
	for i := 0; i < w; i += 8 {
		lo := i
		if bigE {
			lo = w - 8 - i
		}
		out = append(out, ex.ctx.Extract(v, lo, 8))
	}
	return out, slots[1:]
}

// unpack makes the slots of a value of the first bytes.
func (ex *Exec) unpack(t types.Type, ts []*T, bigE bool) ([]Value, []*T) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		var out []Value
		for i := 0; i < int(u.Len()); i++ {
			var v []Value
			v, ts = ex.unpack(u.Elem(), ts, bigE)
			out = append(out, v...)
		}
		return out, ts
	case *types.Struct:
		out := append([]Value(nil), []Value(ex.zero(t).(Agg))...)
		for i := 0; i < u.NumFields(); i++ {
			var v []Value
			v, ts = ex.unpack(u.Field(i).Type(), ts, bigE)
			if u.Field(i).Name() != "_" {
				copy(out[ex.lay.fieldOff(u, i):], v)
			}
		}
		return out, ts
	}
	b := t.Underlying().(*types.Basic)
	if b.Info()&types.IsBoolean != 0 {
		return []Value{ex.ctx.Not(ex.ctx.Eq(ts[0], ex.ctx.Const(0, 8)))}, ts[1:]
	}
	w, _ := intWidth(b)
	n := w / 8
	v := ts[0]
	for i := 1; i < n; i++ {
		if bigE {
			v = ex.ctx.Concat(v, ts[i])
		} else {
			v = ex.ctx.Concat(ts[i], v)
		}
	}
	return []Value{v}, ts[n:]
}

// digits parses the digit string s; class 0 = value, 1 = syntax error, 2 = overflow of 64 bits.
func (ex *Exec) digits(st *State, s Str, base int) (*T, int) {
	c := ex.ctx
	ts := ex.strTerms(s)
	if len(ts) == 0 {
		return nil, 1
	}
	vals := make([]*T, len(ts))
	for i, t := range ts {
		var ok *T
		if base == 16 {
			if nib := c.hexOf[t]; nib != nil {
				vals[i] = nib
				continue
			}
		}
		switch {
		case base <= 10:
			ok = ex.inRange(t, '0', uint64('0'+base-1))
		case base == 16:
			ok = c.BOr(ex.inRange(t, '0', '9'), ex.inRange(t, 'a', 'f'), ex.inRange(t, 'A', 'F'))
		default:
			panic(unsupported("number base"))
		}
		if !ex.decide(st, ok) {
			return nil, 1
		}
		switch {
		case base == 2:
			vals[i] = c.Extract(t, 0, 1)
		case base == 8:
			vals[i] = c.Extract(t, 0, 3)
		case base == 10:
			vals[i] = c.Clip(c.Extract(t, 0, 4), 0, 9)
		case base == 16:
			if t.hi <= '9' || ex.decide(st, c.Ule(t, c.Const('9', 8))) {
				vals[i] = c.Clip(c.Extract(t, 0, 4), 0, 9)
			} else {
				vals[i] = c.Extract(c.Add(c.Extract(t, 0, 4), c.Const(9, 4)), 0, 4)
			}
		default:
			panic(unsupported("number base"))
		}
	}
	if base == 10 {
		// all the digits of one number
		var num *T
		for i, v := range vals {
			if ps := c.piecesOf(v); len(ps) == 1 && ps[0].a != nil && ps[0].a.op == ODigit && ps[0].lo == 0 && ps[0].a.c == uint64(len(vals)-1-i) && (i == 0 || ps[0].a.args[0] == num) {
				num = ps[0].a.args[0]
				continue
			}
			num = nil
			break
		}
		if num != nil && len(vals) < 20 && num.hi < pow10[len(vals)] {
			return c.Zext(num, 64), 0
		}
	}
	limit := map[int]int{2: 64, 8: 21, 10: 19, 16: 16}[base]
	for len(vals) > limit {
		if !ex.decide(st, c.Eq(vals[0], c.Const(0, vals[0].w))) {
			return nil, 2
		}
		vals = vals[1:]
	}
	v := c.Const(0, 64)
	if base == 10 {
		k := int64(1)
		for i := len(vals) - 1; i >= 0; i-- {
			v = c.Add(v, c.MulC(c.Zext(vals[i], 64), k))
			k *= 10
		}
		return v, 0
	}
	acc := vals[0]
	for _, d := range vals[1:] {
		acc = c.Concat(acc, d)
	}
	return c.Zext(acc, 64), 0
}

func (ex *Exec) parseNum(st *State, s Str, base, bits int, signed bool, name string) Value {
	c := ex.ctx
	if bits == 0 {
		bits = 64
	}
	if s.t == nil {
		if signed {
			v, err := strconv.ParseInt(s.s, base, bits)
			return Tup{c.Const(uint64(v), 64), ex.goErr(st, err)}
		}
		v, err := strconv.ParseUint(s.s, base, bits)
		return Tup{c.Const(v, 64), ex.goErr(st, err)}
	}
	if base == 0 {
		panic(unsupported("base 0 on symbolic text"))
	}
	syntax := func() Value {
		return Tup{c.Const(0, 64), ex.mkError(st, Str{s: "strconv." + name + ": parsing \"?\": invalid syntax"})}
	}
	neg := false
	body := s
	if signed && s.length() > 0 {
		t0 := ex.strTerms(s)[0]
		if t0.lo <= '-' && ex.decide(st, c.Eq(t0, c.Const('-', 8))) {
			neg = true
			body = ex.substr(s, 1, s.length())
		} else if t0.lo <= '+' && ex.decide(st, c.Eq(t0, c.Const('+', 8))) {
			body = ex.substr(s, 1, s.length())
		}
	}
	v, cls := ex.digits(st, body, base)
	if cls == 1 {
		return syntax()
	}
	max := uint64(math.MaxUint64)
	if signed {
		max = 1<<uint(bits-1) - 1
		if neg {
			max++
		}
	} else if bits < 64 {
		max = 1<<uint(bits) - 1
	}
	over := cls == 2
	if !over && v.hi > max {
		over = ex.decide(st, c.Not(c.Ule(v, c.Const(max, 64))))
	}
	if over {
		r := c.Const(max, 64)
		if neg {
			r = c.Neg(r)
		}
		return Tup{r, ex.mkError(st, Str{s: "strconv." + name + ": parsing \"?\": value out of range"})}
	}
	if neg {
		v = c.Neg(v)
	}
	return Tup{v, Iface{}}
}

func (ex *Exec) goErr(st *State, err error) Value {
	if err == nil {
		return Iface{}
	}
	return ex.mkError(st, Str{s: err.Error()})
}

func (ex *Exec) deepIface(st *State, a, b Iface, d int) *T {
	c := ex.ctx
	if a.t == nil || b.t == nil {
		return c.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return c.tFalse
	}
	return ex.deep(st, a.v, b.v, a.t, d)
}

func (ex *Exec) deep(st *State, a, b Value, t types.Type, d int) *T {
	c := ex.ctx
	if d > 200 {
		panic(unsupported("DeepEqual recursion"))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return ex.deepIface(st, a.(Iface), b.(Iface), d+1)
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return c.tTrue
		}
		if p.obj == 0 || q.obj == 0 {
			return c.tFalse
		}
		return ex.deep(st, ex.load(st, p, u.Elem()), ex.load(st, q, u.Elem()), u.Elem(), d+1)
	case *types.Slice:
		p, q := a.(Slice), b.(Slice)
		if (p.obj == 0) != (q.obj == 0) || p.len != q.len {
			return c.tFalse
		}
		r := c.tTrue
		es := ex.lay.sizeof(u.Elem())
		for i := 0; i < p.len && r != c.tFalse; i++ {
			x := ex.load(st, Ptr{p.obj, p.off + i*es}, u.Elem())
			y := ex.load(st, Ptr{q.obj, q.off + i*es}, u.Elem())
			r = c.BAnd(r, ex.deep(st, x, y, u.Elem(), d+1))
		}
		return r
	case *types.Array:
		x, y := a.(Agg), b.(Agg)
		es := ex.lay.sizeof(u.Elem())
		r := c.tTrue
		for i := 0; i < int(u.Len()); i++ {
			r = c.BAnd(r, ex.deep(st, elemOf(x, i*es, es, u.Elem()), elemOf(y, i*es, es, u.Elem()), u.Elem(), d+1))
		}
		return r
	case *types.Struct:
		x, y := a.(Agg), b.(Agg)
		r := c.tTrue
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			off, n := ex.lay.fieldOff(u, i), ex.lay.sizeof(ft)
			r = c.BAnd(r, ex.deep(st, elemOf(x, off, n, ft), elemOf(y, off, n, ft), ft, d+1))
		}
		return r
	case *types.Map:
		p, q := a.(MapV), b.(MapV)
		if (p.obj == 0) != (q.obj == 0) {
			return c.tFalse
		}
		if p.obj == q.obj {
			return c.tTrue
		}
		ma, mb := ex.obj(st, p.obj).m, ex.obj(st, q.obj).m
		if len(ma.ents) != len(mb.ents) {
			return c.tFalse
		}
		r := c.tTrue
		for _, e := range ma.ents {
			i := ex.mapFind(st, mb, e.k, u.Key())
			if i < 0 {
				return c.tFalse
			}
			r = c.BAnd(r, ex.deep(st, e.v, mb.ents[i].v, u.Elem(), d+1))
		}
		return r
	case *types.Signature:
		p, q := a.(Fn), b.(Fn)
		return c.Bool(p.fn == nil && q.fn == nil)
	}
	return ex.eq(st, a, b, t)
}

func elemOf(a Agg, off, n int, t types.Type) Value {
	if isAgg(t) {
		return Agg(append([]Value(nil), a[off:off+n]...))
	}
	return a[off]
}

// sortSlice models sort.Slice / sort.SliceStable for element swaps through the
// slice itself: an insertion sort whose comparisons call less.
func sortSlice(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
	iv := a[0].(Iface)
	s, ok := iv.v.(Slice)
	if !ok {
		panic(unsupported("sort.Slice"))
	}
	less := a[1].(Fn)
	var step func(ex *Exec, st *State, i, j int)
	cont := func(i, j int) func(ex *Exec, st *State, ret Value) {
		return func(ex *Exec, st *State, ret Value) {
			t := ret.(*T)
			if !t.isBoolConst() {
				panic(unsupported("symbolic comparison in sort.Slice"))
			}
			if t == ex.ctx.tTrue {
				o := st.heap.mut(s.obj)
				for k := 0; k < s.es; k++ {
					x, y := s.off+j*s.es+k, s.off+(j-1)*s.es+k
					o.slots[x], o.slots[y] = o.slots[y], o.slots[x]
				}
				step(ex, st, i, j-1)
			} else {
				step(ex, st, i+1, i+1)
			}
		}
	}
	step = func(ex *Exec, st *State, i, j int) {
		if j == 0 {
			i++
			j = i
		}
		if i >= s.len {
			return
		}
		f := ex.pushFrame(st, less.fn, []Value{ex.k64(j), ex.k64(j - 1)}, less.bind, nil)
		f.noRet = true
		f.onRet = cont(i, j)
	}
	if s.len < 2 {
		return nil
	}
	step(ex, st, 1, 1)
	return pushedFrame{}
}

func (ex *Exec) noGob(st *State, v Value) {
	if p, ok := v.(Ptr); ok && p.obj != 0 && ex.obj(st, p.obj).gob != nil {
		panic(unsupported("raw bytes mixed with gob data"))
	}
}

var _ = fmt.Sprint
