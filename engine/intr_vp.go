package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// findIntrinsic returns the model of fn, or nil when its body is executed.
func (ex *Exec) findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := ex.intr[name]; ok {
		return in
	}
	if fn.Signature.Recv() == nil && fn.Pkg != nil && strings.HasPrefix(fn.Name(), "vp") {
		if in, ok := vpIntrinsics[fn.Name()]; ok {
			return in
		}
		if in, ok := intrinsics[fn.Name()]; ok {
			return in
		}
	}
	return nil
}

// notHandled: the intrinsic declines, the real body is executed.
type notHandled struct{}

func (st *State) addND(kind string, t *T, c uint64) {
	d := 1
	if st.nd != nil {
		d = st.nd.depth + 1
	}
	st.nd = &ND{kind: kind, t: t, c: c, parent: st.nd, depth: d}
}

func (ex *Exec) freshVar(st *State, kind string, w int, lo, hi uint64) *T {
	st.seq++
	t := ex.ctx.Var(fmt.Sprintf("%s%d_%d_%d", kind, st.seq, lo, hi), w, lo, hi)
	st.addND(kind, t, 0)
	return t
}

func (ex *Exec) assume(st *State, c *T) {
	if !ex.decideAssume(st, c) {
		panic(killPath{"assume"})
	}
}

// decideAssume restricts the path to c; false when infeasible.
func (ex *Exec) decideAssume(st *State, c *T) bool {
	if c == ex.ctx.tTrue {
		return true
	}
	if c == ex.ctx.tFalse {
		return false
	}
	r, ev := ex.sat(st, c, ex.qTimeout)
	if r == Unsat {
		return false
	}
	st.addPC(c)
	if r == Sat {
		st.ev = ev
	} else {
		st.ev = nil
	}
	return true
}

func (ex *Exec) assertHolds(st *State, cond *T, msg string) {
	ex.stats.Asserts++
	if cond == ex.ctx.tTrue {
		ex.stats.AssertsLocal++
		return
	}
	bad := ex.ctx.Not(cond)
	r, ev := ex.sat(st, bad, ex.aTimeout)
	if bad != ex.ctx.tTrue {
		ex.stats.AssertsSolver++
	}
	switch r {
	case Sat:
		if ev == nil {
			b := st.clone()
			b.addPC(bad)
			b.ev = nil
			ex.report(b, "assert", msg, nil)
		} else {
			b := st.clone()
			b.addPC(bad)
			ex.report(b, "assert", msg, ev)
		}
		if !ex.decideAssume(st, cond) {
			panic(killPath{"assume"})
		}
	case Unknown:
		ex.stats.AssertsUnknown++
		ex.incomplete["assertion undecided: "+msg]++
		st.addPC(cond)
	}
}

var vpIntrinsics map[string]intrinsic

func init() {
	cs := func(v Value) string {
		s, ok := cstr(v)
		if !ok {
			panic(unsupported("symbolic label"))
		}
		return s
	}
	vpIntrinsics = map[string]intrinsic{
		"vpByte": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.freshVar(st, "byte", 8, 0, 255)
		},
		"vpByteIn": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.freshVar(st, "byte", 8, a[0].(*T).c, a[1].(*T).c)
		},
		"vpDigit": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.Concat(ex.ctx.Const(3, 4), ex.freshVar(st, "digit", 4, 0, 9))
		},
		"vpU64": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.freshVar(st, "u64", 64, 0, ^uint64(0))
		},
		"vpBits": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			w := int(a[0].(*T).c)
			return ex.ctx.Zext(ex.freshVar(st, "u64", w, 0, mask(w)), 64)
		},
		"vpInt": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			lo, hi := int64(a[0].(*T).c), int64(a[1].(*T).c)
			if lo < 0 {
				panic(unsupported("vpInt with a negative bound"))
			}
			return ex.freshVar(st, "int", 64, uint64(lo), uint64(hi))
		},
		"vpBool": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			v := ex.freshVar(st, "bool", 1, 0, 1)
			return ex.ctx.Eq(v, ex.ctx.Const(1, 1))
		},
		"vpChoose": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			n := int(a[0].(*T).c)
			v := 0
			if n > 1 {
				v = ex.choose(st, "choose", n)
			}
			st.addND("choose", nil, uint64(v))
			return ex.ctx.Const(uint64(v), 64)
		},
		"vpAssume": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			ex.assume(st, a[0].(*T))
			return nil
		},
		"vpAssert": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			ex.assertHolds(st, a[0].(*T), cs(a[1]))
			return nil
		},
		// vpAssertK(ok, id, class, msg): class marks a recorded finding
		"vpAssertK": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			ok, class := a[0].(*T), a[2].(*T)
			id := cs(a[1])
			ex.assertHolds(st, ex.ctx.BOr(ok, class), cs(a[3]))
			in := ex.ctx.BAnd(ex.ctx.Not(ok), class)
			if !ex.knownIDs[id] {
				if r, ev := ex.sat(st, in, ex.aTimeout); r == Sat {
					b := st.clone()
					b.addPC(in)
					if ev == nil {
						b.ev = nil
					}
					if ev == nil {
						ev = ex.model(b)
					}
					if ev != nil {
						ex.knownIDs[id] = true
						ex.viol = append(ex.viol, &Violation{Kind: "known", Msg: cs(a[3]), KnownID: id, Inputs: ex.inputs(b, ev), Harness: ex.harness, Case: ex.caseNo})
					}
				}
			}
			return nil
		},
		"vpReach": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			ex.reached[cs(a[0])]++
			return nil
		},
		"vpObserve": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			v := a[1]
			if i, ok := v.(Iface); ok {
				v = i.v
			}
			d := 1
			if st.obs != nil {
				d = st.obs.depth + 1
			}
			st.obs = &Obs{label: cs(a[0]), v: v, parent: st.obs, depth: d}
			return nil
		},
		"vpCase": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.Const(uint64(ex.caseNo), 64)
		},
		"vpTier": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.Const(uint64(ex.tier), 64)
		},
		"vpMapOrder": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			if st.flags == nil {
				st.flags = map[string]bool{}
			}
			st.flags["maporder"] = a[0].(*T) == ex.ctx.tTrue
			return nil
		},
		// vpNoPanic-style helpers are written in Go with recover.
		"vpOr": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.BOr(a[0].(*T), a[1].(*T))
		},
		"vpAnd": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.BAnd(a[0].(*T), a[1].(*T))
		},
		// vpIte64(c,a,b) without forking
		"vpIte64": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.Ite(a[0].(*T), a[1].(*T), a[2].(*T))
		},
		// vpConc(x): fork over the feasible values of x
		"vpConc": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			t := a[0].(*T)
			return ex.ctx.Const(ex.concretize(st, t), t.w)
		},
		// vpNum(max): a number of at most max
		"vpNum": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			max := a[0].(*T).c
			return ex.ctx.Zext(ex.freshVar(st, "u64", bits.Len64(max), 0, max), 64)
		},
		// vpDec(v, n): the n low decimal digits of v as a string
		"vpDec": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			n := int(a[1].(*T).c)
			ts := make([]*T, n)
			for i := 0; i < n; i++ {
				ts[n-1-i] = ex.digitChar(a[0].(*T), i)
			}
			return mkStr(ts)
		},
		// vpGobValues(data): the number of values saved in data
		"vpGobValues": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.ctx.Const(uint64(len(ex.gobData(st, a[0]).items)), 64)
		},
		// vpGobCut(data, k, mid): data broken off after k values, or within the next one
		"vpGobCut": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			g := ex.gobData(st, a[0])
			k, mid := ex.concretize(st, a[1].(*T)), ex.decide(st, a[2].(*T))
			if int(k) > len(g.items) || int(k) == len(g.items) && mid {
				panic(unsupported("cutting past the end"))
			}
			id := st.alloc(ex.zeroBytes(len(g.items)+1), types.Typ[types.Uint8])
			st.heap.mut(id).gob = &gobBuf{items: g.items[:k], cut: mid}
			n := int(k)
			if mid {
				n++
			}
			return Slice{id, 0, n, n, 1}
		},
		// vpStrEq: string equality as one boolean
		"vpStrEq": func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			return ex.strEq(a[0].(Str), a[1].(Str))
		},
	}
}

func (ex *Exec) gobData(st *State, v Value) *gobBuf {
	s := v.(Slice)
	if s.obj == 0 || ex.obj(st, s.obj).gob == nil {
		panic(unsupported("not what was saved"))
	}
	return ex.obj(st, s.obj).gob
}

func (ex *Exec) zeroBytes(n int) []Value {
	r := make([]Value, n)
	for i := range r {
		r[i] = ex.ctx.Const(0, 8)
	}
	return r
}

func (ex *Exec) digitChar(v *T, i int) *T {
	return ex.ctx.Concat(ex.ctx.Const(3, 4), ex.ctx.Digit(v, i, 4))
}
