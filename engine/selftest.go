package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"time"
)

// The self-test builds random terms and compares, for random values of the
// variables, what the term layer's rewriting made of them with plain
// arithmetic (stRef), and what the solver says of their encoding.

type stTerm struct {
	t   *T
	ref func(env []uint64) uint64
}

type stVar struct {
	t      *T
	lo, hi uint64
}

func stSigned(v uint64, w int) int64 { return int64(v<<uint(64-w)) >> uint(64-w) }

type stGen struct {
	c    *Ctx
	rng  *rand.Rand
	vars []stVar
}

func (g *stGen) n(k int) int { return g.rng.Intn(k) }

var stWidths = []int{1, 4, 6, 8, 16, 32, 64}

func (g *stGen) resize(x stTerm, w int) stTerm {
	f, m := x.ref, mask(w)
	switch {
	case x.t.w == w:
		return x
	case x.t.w > w:
		lo := 0
		if g.n(2) == 0 {
			lo = g.n(x.t.w - w + 1)
		}
		return stTerm{g.c.Extract(x.t, lo, w), func(e []uint64) uint64 { return f(e) >> uint(lo) & m }}
	}
	if g.n(4) == 0 {
		xw := x.t.w
		return stTerm{g.c.Sext(x.t, w), func(e []uint64) uint64 { return uint64(stSigned(f(e), xw)) & m }}
	}
	return stTerm{g.c.Zext(x.t, w), f}
}

func (g *stGen) leaf(w int) stTerm {
	if g.n(4) == 0 {
		v := uint64(g.n(300))
		if g.n(3) == 0 {
			v = g.rng.Uint64()
		}
		v &= mask(w)
		return stTerm{g.c.Const(v, w), func([]uint64) uint64 { return v }}
	}
	i := g.n(len(g.vars))
	return g.resize(stTerm{g.vars[i].t, func(e []uint64) uint64 { return e[i] }}, w)
}

func (g *stGen) bv(w, d int) stTerm {
	if d == 0 {
		return g.leaf(w)
	}
	c, m := g.c, mask(w)
	two := func() (stTerm, stTerm) { return g.bv(w, d-1), g.bv(w, d-1) }
	k := uint64(2 + g.n(200))
	if g.n(3) == 0 {
		k = pow10[1+g.n(4)]
	}
	switch g.n(22) {
	case 0, 1:
		a, b := two()
		return stTerm{c.Add(a.t, b.t), func(e []uint64) uint64 { return (a.ref(e) + b.ref(e)) & m }}
	case 2:
		a, b := two()
		return stTerm{c.Sub(a.t, b.t), func(e []uint64) uint64 { return (a.ref(e) - b.ref(e)) & m }}
	case 3:
		a, b := two()
		return stTerm{c.Mul(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) * b.ref(e) & m }}
	case 4:
		a, s := g.bv(w, d-1), int64(g.n(2001)-1000)
		return stTerm{c.MulC(a.t, s), func(e []uint64) uint64 { return a.ref(e) * uint64(s) & m }}
	case 5:
		if k&m == 0 {
			return g.leaf(w)
		}
		a, q := g.bv(w, d-1), k&m
		return stTerm{c.UDiv(a.t, c.Const(q, w)), func(e []uint64) uint64 { return a.ref(e) / q }}
	case 6:
		if k&m == 0 {
			return g.leaf(w)
		}
		a, q := g.bv(w, d-1), k&m
		return stTerm{c.URem(a.t, c.Const(q, w)), func(e []uint64) uint64 { return a.ref(e) % q }}
	case 7:
		if w < 4 {
			return g.leaf(w)
		}
		a, i := g.bv([]int{8, 16, 32, 64}[g.n(4)], d-1), g.n(12)
		return stTerm{c.Digit(a.t, i, w), func(e []uint64) uint64 { return a.ref(e) / pow10[i] % 10 }}
	case 8:
		a, b := two()
		return stTerm{c.And2(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) & b.ref(e) }}
	case 9:
		a, b := two()
		return stTerm{c.Or2(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) | b.ref(e) }}
	case 10:
		a, b := two()
		return stTerm{c.Xor2(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) ^ b.ref(e) }}
	case 11:
		a, s := g.bv(w, d-1), g.n(w+1)
		return stTerm{c.ShlC(a.t, s), func(e []uint64) uint64 { return a.ref(e) << uint(s) & m }}
	case 12:
		a, s := g.bv(w, d-1), g.n(w+1)
		return stTerm{c.LshrC(a.t, s), func(e []uint64) uint64 { return a.ref(e) >> uint(s) }}
	case 13:
		if w < 8 {
			return g.leaf(w)
		}
		a, b := two()
		switch g.n(3) {
		case 0:
			return stTerm{c.Shl(a.t, b.t), func(e []uint64) uint64 {
				if b.ref(e) >= 64 {
					return 0
				}
				return a.ref(e) << b.ref(e) & m
			}}
		case 1:
			return stTerm{c.Lshr(a.t, b.t), func(e []uint64) uint64 {
				if b.ref(e) >= 64 {
					return 0
				}
				return a.ref(e) >> b.ref(e)
			}}
		}
		return stTerm{c.Ashr(a.t, b.t), func(e []uint64) uint64 {
			n := b.ref(e)
			if n > 63 {
				n = 63
			}
			return uint64(stSigned(a.ref(e), w)>>n) & m
		}}
	case 14:
		if w < 8 {
			return g.leaf(w)
		}
		a, q := g.bv(w, d-1), uint64(1+g.n(100))
		if g.n(2) == 0 {
			return stTerm{c.SDiv(a.t, c.Const(q, w)), func(e []uint64) uint64 { return uint64(stSigned(a.ref(e), w)/int64(q)) & m }}
		}
		return stTerm{c.SRem(a.t, c.Const(q, w)), func(e []uint64) uint64 { return uint64(stSigned(a.ref(e), w)%int64(q)) & m }}
	case 15, 16:
		p := g.boolean(d - 1)
		a, b := two()
		return stTerm{c.Ite(p.t, a.t, b.t), func(e []uint64) uint64 {
			if p.ref(e) == 1 {
				return a.ref(e)
			}
			return b.ref(e)
		}}
	case 17:
		if w < 2 {
			p := g.boolean(d - 1)
			return stTerm{c.B2V(p.t), p.ref}
		}
		l := 1 + g.n(w-1)
		a, b := g.bv(w-l, d-1), g.bv(l, d-1)
		return stTerm{c.Concat(a.t, b.t), func(e []uint64) uint64 { return a.ref(e)<<uint(l) | b.ref(e) }}
	case 18:
		if w != 8 {
			return g.leaf(w)
		}
		a, up := g.bv(4, d-1), g.n(2) == 0
		return stTerm{c.hexChar(a.t, up), func(e []uint64) uint64 {
			s := strconv.FormatUint(a.ref(e), 16)[0]
			if up && s >= 'a' {
				s -= 32
			}
			return uint64(s)
		}}
	}
	return g.resize(g.bv(stWidths[g.n(len(stWidths))], d-1), w)
}

func (g *stGen) boolean(d int) stTerm {
	c := g.c
	if d > 0 && g.n(3) == 0 {
		a, b := g.boolean(d-1), g.boolean(d-1)
		switch g.n(5) {
		case 0:
			return stTerm{c.BAnd(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) & b.ref(e) }}
		case 1:
			return stTerm{c.BOr(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) | b.ref(e) }}
		case 2:
			return stTerm{c.BXor(a.t, b.t), func(e []uint64) uint64 { return a.ref(e) ^ b.ref(e) }}
		case 3:
			return stTerm{c.Not(a.t), func(e []uint64) uint64 { return 1 - a.ref(e) }}
		}
		p := g.boolean(d - 1)
		return stTerm{c.BIte(p.t, a.t, b.t), func(e []uint64) uint64 {
			if p.ref(e) == 1 {
				return a.ref(e)
			}
			return b.ref(e)
		}}
	}
	if d > 0 {
		d--
	}
	w := stWidths[g.n(len(stWidths))]
	a, b := g.bv(w, d), g.bv(w, d)
	switch g.n(6) {
	case 0, 1:
		return stTerm{c.Eq(a.t, b.t), func(e []uint64) uint64 { return b2u(a.ref(e) == b.ref(e)) }}
	case 2:
		return stTerm{c.Ult(a.t, b.t), func(e []uint64) uint64 { return b2u(a.ref(e) < b.ref(e)) }}
	case 3:
		return stTerm{c.Ule(a.t, b.t), func(e []uint64) uint64 { return b2u(a.ref(e) <= b.ref(e)) }}
	case 4:
		return stTerm{c.Slt(a.t, b.t), func(e []uint64) uint64 { return b2u(stSigned(a.ref(e), w) < stSigned(b.ref(e), w)) }}
	}
	return stTerm{c.Sle(a.t, b.t), func(e []uint64) uint64 { return b2u(stSigned(a.ref(e), w) <= stSigned(b.ref(e), w)) }}
}

// selfTest runs for some seconds; it returns 1 if anything differs.
func selfTest(rounds int, seed int64) int {
	rng := rand.New(rand.NewSource(seed))
	terms, evals, queries, bad := 0, 0, 0, 0
	for r := 0; r < rounds && bad < 5; r++ {
		c := NewCtx()
		sol := NewSolver(c)
		g := &stGen{c: c, rng: rng}
		for i := 0; i < 4; i++ {
			w := stWidths[1+g.n(len(stWidths)-1)]
			lo, hi := uint64(0), mask(w)
			if g.n(2) == 0 {
				hi = uint64(g.n(1<<uint(min64(uint64(w), 20)-1)) + 1)
				if hi > mask(w) {
					hi = mask(w)
				}
				lo = uint64(g.n(int(min64(hi, 1000)) + 1))
			}
			g.vars = append(g.vars, stVar{c.Var("v"+strconv.Itoa(i), w, lo, hi), lo, hi})
		}
		for k := 0; k < 60; k++ {
			var x stTerm
			if k%2 == 0 {
				x = g.boolean(1 + g.n(4))
			} else {
				x = g.bv(stWidths[g.n(len(stWidths))], 1+g.n(4))
			}
			terms++
			env := make([]uint64, len(g.vars))
			for j := 0; j < 12; j++ {
				m := Model{}
				for i, v := range g.vars {
					switch g.n(4) {
					case 0:
						env[i] = v.lo
					case 1:
						env[i] = v.hi
					default:
						if n := v.hi - v.lo + 1; n == 0 {
							env[i] = rng.Uint64()
						} else {
							env[i] = v.lo + rng.Uint64()%n
						}
					}
					m[v.t] = env[i]
				}
				want := x.ref(env)
				evals++
				if got := newEval(m).eval(x.t); got != want {
					fmt.Printf("selftest: %s is %d for %v, by rewriting %d\n", printTerm(x.t, 6), want, env, got)
					bad++
					break
				}
				if x.t.w > 0 && (want < x.t.lo || want > x.t.hi) {
					fmt.Printf("selftest: %s is %d for %v, outside of its range %d..%d\n", printTerm(x.t, 6), want, env, x.t.lo, x.t.hi)
					bad++
					break
				}
				if j == 0 {
					lits := []*T{}
					for i, v := range g.vars {
						lits = append(lits, c.Eq(v.t, c.Const(env[i], v.t.w)))
					}
					l := x.t
					if x.t.w > 0 {
						l = c.Eq(x.t, c.Const(want, x.t.w))
					} else if want == 0 {
						l = c.Not(x.t)
					}
					queries++
					if res, _ := sol.Check(append(lits, l), 5*time.Second); res == Unsat {
						fmt.Printf("selftest: the solver excludes that %s is %d for %v\n", printTerm(x.t, 6), want, env)
						bad++
						break
					}
					if res, _ := sol.Check(append(lits, c.Not(l)), 5*time.Second); res == Sat {
						fmt.Printf("selftest: the solver allows that %s isn't %d for %v\n", printTerm(x.t, 6), want, env)
						bad++
						break
					}
				}
			}
		}
		sol.Close()
	}
	fmt.Printf("selftest: %d terms, %d evaluations, %d solver queries, %d differ\n", terms, evals, 2*queries, bad)
	if bad > 0 {
		fmt.Fprintln(os.Stderr, "selftest failed")
		return 1
	}
	return 0
}

func selfTestMain(args []string) int {
	rounds, seed := 40, int64(1)
	if len(args) > 0 {
		rounds, _ = strconv.Atoi(args[0])
	}
	if len(args) > 1 {
		seed, _ = strconv.ParseInt(args[1], 10, 64)
	}
	return selfTest(rounds, seed)
}
