package main

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// World is the loaded program, shared by the workers.
type World struct {
	prog    *ssa.Program
	mu      sync.Mutex
	globals map[*ssa.Global]int
	byID    []*ssa.Global
	pkgs    map[string]*ssa.Package
	built   sync.Map
	module  string
	dropped map[string]bool
}

const firstObj = 1

func (w *World) globalByID(id int) *ssa.Global {
	if id-firstObj >= 0 && id-firstObj < len(w.byID) {
		return w.byID[id-firstObj]
	}
	return nil
}

func (w *World) build(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		return
	}
	if _, ok := w.built.Load(p); ok {
		return
	}
	p.Build()
	w.built.Store(p, true)
}

// FnInfo holds register numbering, liveness and postdominators.
type FnInfo struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	nreg   int
	name   string
	intr   intrinsic
	liveIn []bitset // per block, after its phis
	ipdom  []int    // per block index, -1 = exit
	phis   []int    // number of leading phis per block
	user   bool
	steps  int64
}

type bitset []uint64

func newBits(n int) bitset      { return make(bitset, (n+63)/64) }
func (b bitset) set(i int)      { b[i>>6] |= 1 << uint(i&63) }
func (b bitset) clr(i int)      { b[i>>6] &^= 1 << uint(i&63) }
func (b bitset) has(i int) bool { return b[i>>6]>>uint(i&63)&1 == 1 }
func (b bitset) copyOf() bitset { return append(bitset(nil), b...) }
func (b bitset) or(o bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}

func (ex *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := ex.infos[fn]; ok {
		return fi
	}
	ex.w.build(fn)
	fi := &FnInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, dup := fi.idx[v]; !dup {
					add(v)
				}
			}
		}
	}
	fi.intr = ex.findIntrinsic(fn)
	fi.user = ex.isUser(fn)
	if len(fn.Blocks) > 0 {
		fi.analyse()
	}
	ex.infos[fn] = fi
	return fi
}

func (fi *FnInfo) analyse() {
	fn := fi.fn
	n := len(fn.Blocks)
	fi.phis = make([]int, n)
	fi.liveIn = make([]bitset, n)
	for i, b := range fn.Blocks {
		k := 0
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				break
			}
			k++
		}
		fi.phis[i] = k
		fi.liveIn[i] = newBits(fi.nreg + 1)
	}
	// liveness: liveIn[b] is after the phis of b (so it includes phi results that are used)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := newBits(fi.nreg + 1)
			for _, s := range b.Succs {
				live.or(fi.liveIn[s.Index])
				// phi results of s are defined there
				for _, in := range s.Instrs[:fi.phis[s.Index]] {
					live.clr(fi.idx[in.(ssa.Value)])
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs[:fi.phis[s.Index]] {
						if j, ok := fi.idx[in.(*ssa.Phi).Edges[pi]]; ok {
							live.set(j)
						}
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= fi.phis[i]; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					// a Range iterator register is mutated by Next, keep it live
					live.clr(fi.idx[v])
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if k, ok := fi.idx[*op]; ok {
						live.set(k)
					}
				}
			}
			if fi.liveIn[i].or(live) {
				changed = true
			}
		}
	}
	// a recover block reads named results at any time
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if k, ok := fi.idx[*op]; ok {
					for i := range fi.liveIn {
						fi.liveIn[i].set(k)
					}
				}
			}
		}
	}
	// postdominators by set intersection (functions are small)
	fi.ipdom = postdom(fn)
}

func postdom(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// node n is the virtual exit
	pd := make([]bitset, n+1)
	all := newBits(n + 1)
	for i := 0; i <= n; i++ {
		all.set(i)
	}
	for i := 0; i < n; i++ {
		pd[i] = all.copyOf()
	}
	pd[n] = newBits(n + 1)
	pd[n].set(n)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var s bitset
			if len(b.Succs) == 0 {
				s = pd[n].copyOf()
			} else {
				s = pd[b.Succs[0].Index].copyOf()
				for _, q := range b.Succs[1:] {
					o := pd[q.Index]
					for k := range s {
						s[k] &= o[k]
					}
				}
			}
			s.set(i)
			for k := range s {
				if s[k] != pd[i][k] {
					pd[i] = s
					changed = true
					break
				}
			}
		}
	}
	cnt := func(b bitset) int {
		c := 0
		for i := 0; i <= n; i++ {
			if b.has(i) {
				c++
			}
		}
		return c
	}
	ip := make([]int, n)
	for i := 0; i < n; i++ {
		best, bc := n, -1
		for j := 0; j <= n; j++ {
			if j != i && pd[i].has(j) {
				if c := cnt(pd[j]); c > bc {
					best, bc = j, c
				}
			}
		}
		if best == n {
			ip[i] = -1
		} else {
			ip[i] = best
		}
	}
	return ip
}

func (ex *Exec) isUser(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if fn.Parent() != nil {
			return ex.isUser(fn.Parent())
		}
		return false
	}
	path := p.Pkg.Path()
	return len(path) >= len(ex.w.module) && path[:len(ex.w.module)] == ex.w.module
}

func isNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

var _ = token.ADD
var _ types.Type
