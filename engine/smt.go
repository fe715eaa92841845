package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int64
	CacheHits, Local                int64
	Errors                          int64
	Time                            time.Duration
	Fallback                        int64
}

type solverProc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	lines chan string
}

type Solver struct {
	ctx    *Ctx
	proc   *solverProc
	bin    string
	stats  SolverStats
	cache  map[string]bool  // unsat cache by literal ids
	models map[string]Model // of the satisfiable ones
	log    io.Writer
}

func NewSolver(ctx *Ctx) *Solver {
	return &Solver{ctx: ctx, bin: solverBin(), cache: map[string]bool{}, models: map[string]Model{}}
}

func solverBin() string {
	if b := os.Getenv("VP_SOLVER"); b != "" {
		return b
	}
	return "z3-new"
}

func (s *Solver) start(bin string) *solverProc {
	var cmd *exec.Cmd
	if strings.HasPrefix(bin, "cvc5") {
		cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2")
	} else {
		cmd = exec.Command(bin, "-in", "-smt2", "memory_max_size=3000")
	}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "solver start:", err)
		return nil
	}
	p := &solverProc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), lines: make(chan string, 256)}
	go func() {
		for {
			l, err := p.out.ReadString('\n')
			if l != "" {
				p.lines <- strings.TrimSpace(l)
			}
			if err != nil {
				close(p.lines)
				return
			}
		}
	}()
	return p
}

func (s *Solver) kill(p *solverProc) {
	if p != nil {
		p.cmd.Process.Kill()
		p.in.Close()
		go p.cmd.Wait()
	}
}

func (s *Solver) Close() {
	if s.proc != nil {
		s.kill(s.proc)
		s.proc = nil
	}
}

// smtPrinter writes terms with sharing.
type smtPrinter struct {
	b     *strings.Builder
	done  map[*T]string
	decls strings.Builder
	defs  strings.Builder
	vars  []*T
}

func (p *smtPrinter) bv(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func (p *smtPrinter) resize(s string, from, to int) string {
	if from == to {
		return s
	}
	if to > from {
		return fmt.Sprintf("((_ zero_extend %d) %s)", to-from, s)
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", to-1, s)
}

func (p *smtPrinter) term(t *T) string {
	if s, ok := p.done[t]; ok {
		return s
	}
	var s string
	leaf := false
	switch t.op {
	case OConst:
		s = p.bv(t.c, t.w)
		leaf = true
	case OTrue:
		s, leaf = "true", true
	case OFalse:
		s, leaf = "false", true
	case OVar:
		s, leaf = "|"+t.name+"|", true
		p.vars = append(p.vars, t)
		fmt.Fprintf(&p.decls, "(declare-fun %s () (_ BitVec %d))\n", s, t.w)
		if t.lo > 0 {
			fmt.Fprintf(&p.decls, "(assert (bvuge %s %s))\n", s, p.bv(t.lo, t.w))
		}
		if t.hi < mask(t.w) {
			fmt.Fprintf(&p.decls, "(assert (bvule %s %s))\n", s, p.bv(t.hi, t.w))
		}
	case OBVar:
		s, leaf = "|"+t.name+"|", true
		p.vars = append(p.vars, t)
		fmt.Fprintf(&p.decls, "(declare-fun %s () Bool)\n", s)
	case OCat:
		var parts []string
		for i := len(t.pieces) - 1; i >= 0; i-- {
			q := t.pieces[i]
			if q.a == nil {
				parts = append(parts, p.bv(q.c, q.w))
				continue
			}
			a := p.term(q.a)
			if q.lo == 0 && q.w == q.a.w {
				parts = append(parts, a)
			} else if q.lo+q.w > q.a.w {
				panic("piece beyond atom")
			} else {
				parts = append(parts, fmt.Sprintf("((_ extract %d %d) %s)", q.lo+q.w-1, q.lo, a))
			}
		}
		if len(parts) == 1 {
			s = parts[0]
		} else {
			s = "(concat " + strings.Join(parts, " ") + ")"
		}
	case OLin:
		var parts []string
		for i, a := range t.args {
			x := p.resize(p.term(a), a.w, t.w)
			k := t.coefs[i]
			if k != 1 {
				x = fmt.Sprintf("(bvmul %s %s)", p.bv(uint64(k)&mask(t.w), t.w), x)
			}
			parts = append(parts, x)
		}
		if t.c != 0 {
			parts = append(parts, p.bv(t.c, t.w))
		}
		s = parts[0]
		for _, x := range parts[1:] {
			s = "(bvadd " + s + " " + x + ")"
		}
	case OClip:
		s = p.term(t.args[0])
		leaf = true
	case ODigit:
		v := t.args[0]
		x := p.term(v)
		W := v.w
		if W < 8 {
			x = p.resize(x, W, 8)
			W = 8
		}
		if t.c > 0 {
			x = fmt.Sprintf("(bvudiv %s %s)", x, p.bv(pow10[t.c]&mask(W), W))
		}
		x = fmt.Sprintf("(bvurem %s %s)", x, p.bv(10, W))
		s = p.resize(x, W, t.w)
	case OB2V:
		s = fmt.Sprintf("(ite %s #b1 #b0)", p.term(t.args[0]))
	default:
		names := map[Op]string{OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite", OBIte: "ite", ONot: "not", OBAnd: "and", OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBXor: "xor"}
		n := names[t.op]
		if n == "" {
			panic("smt: op")
		}
		parts := []string{n}
		for _, a := range t.args {
			parts = append(parts, p.term(a))
		}
		s = "(" + strings.Join(parts, " ") + ")"
	}
	if !leaf && len(s) > 24 {
		nm := fmt.Sprintf("t%d", t.id)
		sort := "Bool"
		if t.w > 0 {
			sort = fmt.Sprintf("(_ BitVec %d)", t.w)
		}
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", nm, sort, s)
		s = nm
	}
	p.done[t] = s
	return s
}

var solverRLimit = 0

// Check decides the conjunction of the literals. On Sat the model maps the
// variables that occur.
func (s *Solver) Check(lits []*T, timeout time.Duration) (Result, Model) {
	ls := make([]*T, 0, len(lits))
	for _, l := range lits {
		if l == s.ctx.tFalse {
			s.stats.Local++
			return Unsat, nil
		}
		if l != s.ctx.tTrue {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		s.stats.Local++
		return Sat, Model{}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
	var kb strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&kb, "%d,", l.id)
	}
	key := kb.String()
	if s.cache[key] {
		s.stats.CacheHits++
		return Unsat, nil
	}
	if m, ok := s.models[key]; ok {
		s.stats.CacheHits++
		return Sat, m
	}
	p := &smtPrinter{done: map[*T]string{}}
	var asserts strings.Builder
	for _, l := range ls {
		fmt.Fprintf(&asserts, "(assert %s)\n", p.term(l))
	}
	var q strings.Builder
	q.WriteString(p.decls.String())
	q.WriteString(p.defs.String())
	q.WriteString(asserts.String())
	t0 := time.Now()
	r, m := s.run(s.bin, &s.proc, q.String(), p.vars, timeout)
	if r == Unknown {
		// one retry on a different solver
		alt := "z3"
		if s.bin == "z3" {
			alt = "z3-new"
		}
		var pr *solverProc
		s.stats.Fallback++
		r, m = s.run(alt, &pr, q.String(), p.vars, timeout)
		s.kill(pr)
		if r == Unknown {
			var pr *solverProc
			r, m = s.run("cvc5", &pr, q.String(), p.vars, timeout)
			s.kill(pr)
		}
	}
	d := time.Since(t0)
	s.stats.Time += d
	if dumpAll {
		os.WriteFile(fmt.Sprintf("/tmp/q/q%d.smt2", s.stats.Queries), []byte(q.String()+"(check-sat)\n; "+d.String()+"\n"), 0644)
	}
	if slowLog && d > time.Second {
		fmt.Fprintf(os.Stderr, "slow query %v %v size %d\n", d, r, q.Len())
		if os.Getenv("VP_DUMP") != "" {
			os.WriteFile(fmt.Sprintf("/tmp/slow_%d.smt2", s.stats.Queries), []byte(q.String()+"(check-sat)\n"), 0644)
		}
	}
	s.stats.Queries++
	atomic.AddInt64(&globalQueries, 1)
	switch r {
	case Sat:
		s.stats.SatN++
		// validate the model against the terms: guards the printer and the solver
		e := newEval(m)
		for _, l := range ls {
			if e.eval(l) != 1 {
				s.stats.Errors++
				s.stats.UnknownN++
				if slowLog {
					fmt.Fprintf(os.Stderr, "MODEL MISMATCH on %v\n", printTerm(l, 5))
					os.WriteFile("/tmp/mismatch.smt2", []byte(q.String()), 0644)
				}
				return Unknown, nil
			}
		}
		if len(s.models) < 20000 {
			s.models[key] = m
		}
	case Unsat:
		s.stats.UnsatN++
		s.cache[key] = true
	default:
		s.stats.UnknownN++
	}
	return r, m
}

var dumpAll = os.Getenv("VP_DUMPALL") != ""
var globalQueries int64
var slowLog = os.Getenv("VP_SLOW") != ""

func (s *Solver) run(bin string, pp **solverProc, q string, vars []*T, timeout time.Duration) (Result, Model) {
	if *pp == nil {
		*pp = s.start(bin)
		if *pp == nil {
			return Unknown, nil
		}
	}
	p := *pp
	var b strings.Builder
	b.WriteString("(reset)\n(set-logic QF_BV)\n")
	if bin != "cvc5" {
		fmt.Fprintf(&b, "(set-option :timeout %d)\n", timeout.Milliseconds())
	} else {
		b.Reset()
		b.WriteString("(reset)\n(set-option :produce-models true)\n")
		fmt.Fprintf(&b, "(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", timeout.Milliseconds())
	}
	b.WriteString(q)
	b.WriteString("(check-sat)\n(echo \"@done\")\n")
	if _, err := io.WriteString(p.in, b.String()); err != nil {
		s.kill(p)
		*pp = nil
		return Unknown, nil
	}
	lines, ok := s.readUntil(p, timeout+10*time.Second)
	if !ok {
		s.kill(p)
		*pp = nil
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		if strings.Contains(l, "(error") {
			s.stats.Errors++
			if slowLog {
				fmt.Fprintln(os.Stderr, "solver error:", l)
				os.WriteFile("/tmp/err.smt2", []byte(b.String()), 0644)
			}
			return Unknown, nil
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	if res != Sat {
		return res, nil
	}
	m := Model{}
	if len(vars) == 0 {
		return res, m
	}
	b.Reset()
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString("|" + v.name + "| ")
	}
	b.WriteString("))\n(echo \"@done\")\n")
	if _, err := io.WriteString(p.in, b.String()); err != nil {
		s.kill(p)
		*pp = nil
		return Unknown, nil
	}
	lines, ok = s.readUntil(p, 20*time.Second)
	if !ok {
		s.kill(p)
		*pp = nil
		return Unknown, nil
	}
	txt := strings.Join(lines, " ")
	byName := map[string]*T{}
	for _, v := range vars {
		byName[v.name] = v
	}
	toks := tokenize(txt)
	for i := 0; i+1 < len(toks); i++ {
		nm := strings.Trim(toks[i], "|")
		v, ok := byName[nm]
		if !ok {
			continue
		}
		val := toks[i+1]
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			fmt.Sscanf(val[2:], "%x", &x)
		case strings.HasPrefix(val, "#b"):
			for _, ch := range val[2:] {
				x = x<<1 | uint64(ch-'0')
			}
		default:
			return Unknown, nil
		}
		m[v] = x
	}
	return res, m
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == '(' || ch == ')' || ch == ' ' || ch == '\n' || ch == '\t':
			i++
		case ch == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func (s *Solver) readUntil(p *solverProc, d time.Duration) ([]string, bool) {
	var out []string
	tm := time.NewTimer(d)
	defer tm.Stop()
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				return out, false
			}
			if strings.Contains(l, "@done") {
				return out, true
			}
			out = append(out, l)
		case <-tm.C:
			return out, false
		}
	}
}
