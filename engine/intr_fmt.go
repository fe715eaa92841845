package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decimal renders an unsigned value; leading zeros are removed by forking on
// the high digits. pad is the minimal number of digits.
func (ex *Exec) decimal(st *State, v *T, pad int) Str {
	if v.isConst() {
		s := strconv.FormatUint(v.c, 10)
		for len(s) < pad {
			s = "0" + s
		}
		return Str{s: s}
	}
	n := len(strconv.FormatUint(v.hi, 10))
	for n > 1 && n > pad {
		d := ex.ctx.Digit(v, n-1, 4)
		cond := ex.ctx.Eq(d, ex.ctx.Const(0, 4))
		if d.op == ODigit {
			cond = ex.ctx.Ult(v, ex.ctx.Const(pow10[n-1], v.w))
		}
		if !ex.decide(st, cond) {
			break
		}
		n--
	}
	if n < pad {
		n = pad
	}
	ts := make([]*T, n)
	for i := 0; i < n; i++ {
		ts[n-1-i] = ex.digitChar(v, i)
	}
	return mkStr(ts)
}

// radix renders v in base 2^k.
func (ex *Exec) radix(st *State, v *T, k int, upper bool, pad int) Str {
	c := ex.ctx
	if v.isConst() {
		s := strconv.FormatUint(v.c, 1<<uint(k))
		if upper {
			s = strings.ToUpper(s)
		}
		for len(s) < pad {
			s = "0" + s
		}
		return Str{s: s}
	}
	bl := ew(v)
	n := (bl + k - 1) / k
	if n < 1 {
		n = 1
	}
	digit := func(i int) *T {
		w := k
		if i*k >= v.w {
			return c.Const(0, k)
		}
		if i*k+w > v.w {
			w = v.w - i*k
		}
		return c.Extract(v, i*k, w)
	}
	for n > 1 && n > pad {
		d := digit(n - 1)
		if !ex.decide(st, c.Eq(d, c.Const(0, d.w))) {
			break
		}
		n--
	}
	if n < pad {
		n = pad
	}
	ts := make([]*T, n)
	for i := 0; i < n; i++ {
		d := digit(i)
		if k == 1 {
			ts[n-1-i] = c.Concat(c.Const(0x30>>1, 7), d)
			continue
		}
		d8 := c.Zext(d, 8)
		if k == 3 || d8.hi < 10 {
			ts[n-1-i] = c.Concat(c.Const(3, 4), c.Extract(d8, 0, 4))
		} else {
			ts[n-1-i] = c.hexChar(d, upper)
		}
	}
	return mkStr(ts)
}

type fmtFlags struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (ex *Exec) sprintf(st *State, format string, args []Value, lenient bool) Str {
	out := Str{}
	add := func(s Str) { out = ex.concat(out, s) }
	ai := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			add(Str{s: format[i:]})
			break
		}
		add(Str{s: format[i : i+j]})
		i += j + 1
		if i >= len(format) {
			add(Str{s: "%!(NOVERB)"})
			break
		}
		var f fmtFlags
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '-':
				f.minus = true
				f.zero = false
			case '+':
				f.plus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = !f.minus
			default:
				break flags
			}
		}
		star := func() int {
			if ai < len(args) {
				if a, ok := args[ai].(Iface); ok {
					if t, ok := a.v.(*T); ok {
						ai++
						return int(signedConst(ex.concretize(st, t), t.w))
					}
				}
			}
			panic(unsupported("bad * in format"))
		}
		num := func() (int, bool) {
			n, ok := 0, false
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				n = n*10 + int(format[i]-'0')
				i++
				ok = true
			}
			return n, ok
		}
		if i < len(format) && format[i] == '*' {
			f.wid, f.hasWid = star(), true
			i++
			if f.wid < 0 {
				f.minus, f.wid, f.zero = true, -f.wid, false
			}
		} else {
			f.wid, f.hasWid = num()
		}
		if i < len(format) && format[i] == '.' {
			i++
			f.hasPrec = true
			if i < len(format) && format[i] == '*' {
				f.prec = star()
				i++
				if f.prec < 0 {
					f.hasPrec = false
				}
			} else {
				f.prec, _ = num()
			}
		}
		if i >= len(format) {
			add(Str{s: "%!(NOVERB)"})
			break
		}
		verb := format[i]
		i++
		if verb == '%' {
			add(Str{s: "%"})
			continue
		}
		if verb >= 0x80 {
			panic(unsupported("non-ASCII verb"))
		}
		if ai >= len(args) {
			add(Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai]
		ai++
		add(ex.fmtArg(st, verb, f, a, lenient))
	}
	if ai < len(args) {
		add(Str{s: "%!(EXTRA "})
		for k, a := range args[ai:] {
			if k > 0 {
				add(Str{s: ", "})
			}
			if iv, ok := a.(Iface); ok && iv.t != nil {
				add(Str{s: typeName(iv.t) + "="})
			}
			add(ex.fmtArg(st, 'v', fmtFlags{}, a, lenient))
		}
		add(Str{s: ")"})
	}
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (ex *Exec) padStr(s Str, f fmtFlags, zero bool) Str {
	n := s.length()
	if !f.hasWid || n >= f.wid {
		return s
	}
	p := strings.Repeat(" ", f.wid-n)
	if f.minus {
		return ex.concat(s, Str{s: p})
	}
	if zero {
		p = strings.Repeat("0", f.wid-n)
	}
	return ex.concat(Str{s: p}, s)
}

func (ex *Exec) fmtArg(st *State, verb byte, f fmtFlags, a Value, lenient bool) Str {
	iv, ok := a.(Iface)
	if !ok {
		panic(unsupported("format argument"))
	}
	if iv.t == nil {
		if verb == 'v' || verb == 'T' {
			return ex.padStr(Str{s: "<nil>"}, f, false)
		}
		return Str{s: "%!" + string(verb) + "(<nil>)"}
	}
	if verb == 'T' {
		return Str{s: typeName(iv.t)}
	}
	// pointers to big.Int
	if iv.t.String() == "*math/big.Int" {
		b, nilp := ex.bigVal(st, iv.v)
		if nilp {
			return Str{s: "<nil>"}
		}
		return ex.fmtUint(st, verb, f, b.mag, b.neg, iv.t)
	}
	switch u := iv.t.Underlying().(type) {
	case *types.Basic:
		if m := ex.stringMethod(iv.t); m != "" && (verb == 'v' || verb == 's') {
			if lenient {
				return Str{s: "?"}
			}
			panic(unsupported("fmt of a value with method " + m))
		}
		switch {
		case u.Info()&types.IsString != 0:
			s, ok := iv.v.(Str)
			if !ok {
				panic(unsupported("format string value"))
			}
			if f.hasPrec && s.length() > f.prec {
				s = ex.substr(s, 0, f.prec)
			}
			switch verb {
			case 'v', 's':
				return ex.padStr(s, f, f.zero)
			case 'q':
				if s.t == nil {
					return ex.padStr(Str{s: strconv.Quote(s.s)}, f, f.zero)
				}
				return ex.concat(ex.concat(Str{s: "\""}, s), Str{s: "\""}) // ASCII content is assumed in messages
			case 'x', 'X':
				r := Str{}
				for _, t := range ex.strTerms(s) {
					r = ex.concat(r, ex.radix(st, t, 4, verb == 'X', 2))
				}
				return ex.padStr(r, f, f.zero)
			}
		case u.Info()&types.IsBoolean != 0:
			if verb == 'v' || verb == 't' {
				if ex.decide(st, iv.v.(*T)) {
					return ex.padStr(Str{s: "true"}, f, false)
				}
				return ex.padStr(Str{s: "false"}, f, false)
			}
		case u.Info()&types.IsInteger != 0:
			w, signed := intWidth(u)
			t, ok := iv.v.(*T)
			if !ok {
				panic(unsupported("format integer value"))
			}
			neg := false
			mag := t
			if verb == 'c' {
				return ex.padStr(ex.runeToStr(st, ex.asInt64(t, iv.t).(*T)), f, f.zero)
			}
			if signed && ex.decide(st, ex.ctx.Slt(t, ex.ctx.Const(0, w))) {
				neg = true
				mag = ex.ctx.Neg(t)
			}
			return ex.fmtUint(st, verb, f, mag, neg, iv.t)
		case u.Info()&types.IsFloat != 0:
			fl, ok := iv.v.(Flt)
			if ok && !fl.sym() {
				fs := "%"
				if f.zero {
					fs += "0"
				}
				if f.minus {
					fs += "-"
				}
				if f.hasWid {
					fs += strconv.Itoa(f.wid)
				}
				if f.hasPrec {
					fs += "." + strconv.Itoa(f.prec)
				}
				return Str{s: fmt.Sprintf(fs+string(verb), fl.c)}
			}
			if lenient {
				return Str{s: "?"}
			}
			panic(unsupported("format of symbolic float"))
		}
	case *types.Slice:
		s, ok := iv.v.(Slice)
		if !ok {
			break
		}
		if eb, isB := u.Elem().Underlying().(*types.Basic); isB {
			var o *Obj
			if s.len > 0 {
				o = ex.obj(st, s.obj)
			}
			if eb.Kind() == types.Uint8 && (verb == 'x' || verb == 'X') {
				r := Str{}
				for i := 0; i < s.len; i++ {
					r = ex.concat(r, ex.radix(st, o.slots[s.off+i].(*T), 4, verb == 'X', 2))
				}
				return ex.padStr(r, f, f.zero)
			}
			if eb.Kind() == types.Uint8 && verb == 's' {
				return ex.padStr(ex.convert(st, u, types.Typ[types.String], s).(Str), f, f.zero)
			}
			if lenient {
				// messages with symbolic content are not inspected by the properties
				for i := 0; i < s.len; i++ {
					if t, ok := o.slots[s.off+i].(*T); ok && !t.isConst() {
						return Str{s: "[?]"}
					}
				}
			}
			r := Str{s: "["}
			for i := 0; i < s.len; i++ {
				if i > 0 {
					r = ex.concat(r, Str{s: " "})
				}
				r = ex.concat(r, ex.fmtArg(st, verb, f, Iface{u.Elem(), o.slots[s.off+i]}, lenient))
			}
			return ex.concat(r, Str{s: "]"})
		}
	case *types.Pointer, *types.Struct:
		if lenient {
			return Str{s: "?"}
		}
		// error values made by errors.New / fmt.Errorf
		if s, ok := ex.errText(st, iv); ok && (verb == 'v' || verb == 's') {
			return ex.padStr(s, f, false)
		}
	}
	if s, ok := ex.errText(st, iv); ok && (verb == 'v' || verb == 's') {
		return ex.padStr(s, f, false)
	}
	if lenient {
		return Str{s: "?"}
	}
	panic(unsupported(fmt.Sprintf("format %%%c of %v", verb, iv.t)))
}

func (ex *Exec) stringMethod(t types.Type) string {
	for _, m := range []string{"Error", "String"} {
		obj, _, _ := types.LookupFieldOrMethod(t, true, nil, m)
		if f, ok := obj.(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 0 {
			return m
		}
	}
	return ""
}

func (ex *Exec) errText(st *State, iv Iface) (Str, bool) {
	if iv.t == nil {
		return Str{}, false
	}
	switch iv.t.String() {
	case "*errors.errorString", "*fmt.wrapError":
		if p, ok := iv.v.(Ptr); ok && p.obj != 0 {
			if s, ok := ex.obj(st, p.obj).slots[p.off].(Str); ok {
				return s, true
			}
		}
	case "runtime.errorString":
		if s, ok := iv.v.(Str); ok {
			return ex.concat(Str{s: "runtime error: "}, s), true
		}
	}
	return Str{}, false
}

func (ex *Exec) fmtUint(st *State, verb byte, f fmtFlags, mag *T, neg bool, t types.Type) Str {
	pad := 0
	zeroWid := false
	if f.hasPrec {
		pad = f.prec
	} else if f.zero && f.hasWid {
		pad = f.wid
		if neg || f.plus || f.space {
			pad--
		}
		zeroWid = true
	}
	var s Str
	if f.hasPrec && f.prec == 0 && mag.isConst() && mag.c == 0 {
		s = Str{}
	} else {
		switch verb {
		case 'v', 'd':
			s = ex.decimal(st, mag, pad)
		case 'b':
			s = ex.radix(st, mag, 1, false, pad)
		case 'o':
			s = ex.radix(st, mag, 3, false, pad)
		case 'x':
			s = ex.radix(st, mag, 4, false, pad)
		case 'X':
			s = ex.radix(st, mag, 4, true, pad)
		default:
			return ex.concat(Str{s: "%!" + string(verb) + "(" + typeName(t) + "="}, ex.concat(ex.decimal(st, mag, 0), Str{s: ")"}))
		}
	}
	if f.sharp {
		panic(unsupported("# flag"))
	}
	if neg {
		s = ex.concat(Str{s: "-"}, s)
	} else if f.plus {
		s = ex.concat(Str{s: "+"}, s)
	} else if f.space {
		s = ex.concat(Str{s: " "}, s)
	}
	_ = zeroWid
	return ex.padStr(s, f, false)
}

// ifaceSlice returns the elements of a []interface{} value.
func (ex *Exec) ifaceSlice(st *State, v Value) []Value {
	s, ok := v.(Slice)
	if !ok {
		panic(unsupported("variadic argument"))
	}
	if s.len == 0 {
		return nil
	}
	return append([]Value(nil), ex.obj(st, s.obj).slots[s.off:s.off+s.len]...)
}

func (ex *Exec) mkError(st *State, s Str) Value {
	t := ex.w.errorsErrorString()
	id := st.alloc([]Value{s}, t.Elem())
	return Iface{t: t, v: Ptr{obj: id}}
}

func (ex *Exec) fmtFormat(v Value) string {
	s, ok := cstr(v)
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	return s
}

// sprint for Sprint/Sprintln/Print with mostly string operands
func (ex *Exec) sprint(st *State, args []Value, ln bool, lenient bool) Str {
	out := Str{}
	prevStr := true
	for i, a := range args {
		iv, _ := a.(Iface)
		isStr := iv.t != nil && isString(iv.t)
		if i > 0 && (ln || !isStr && !prevStr) {
			out = ex.concat(out, Str{s: " "})
		}
		out = ex.concat(out, ex.fmtArg(st, 'v', fmtFlags{}, a, lenient))
		prevStr = isStr
	}
	if ln {
		out = ex.concat(out, Str{s: "\n"})
	}
	return out
}

func init() {
	reg("fmt.Sprintf", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.sprintf(st, ex.fmtFormat(a[0]), ex.ifaceSlice(st, a[1]), false)
	})
	reg("fmt.Sprint", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.sprint(st, ex.ifaceSlice(st, a[0]), false, false)
	})
	reg("fmt.Sprintln", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return ex.sprint(st, ex.ifaceSlice(st, a[0]), true, false)
	})
	reg("fmt.Errorf", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		f, ok := cstr(a[0])
		if !ok {
			return ex.mkError(st, Str{s: "?"})
		}
		// the text of an error is never inspected: symbolic parts become "?"
		args := ex.ifaceSlice(st, a[1])
		for i, v := range args {
			if iv, ok := v.(Iface); ok && hasSym(iv.v) {
				args[i] = Iface{t: types.Typ[types.String], v: Str{s: "?"}}
			}
		}
		f = strings.NewReplacer("%w", "%v").Replace(f)
		var s Str
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, isF := r.(forkSignal); isF {
						panic(r)
					}
					s = Str{s: "?" + f}
				}
			}()
			s = ex.sprintf(st, f, args, true)
		}()
		return ex.mkError(st, s)
	})
	pr := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return Tup{ex.ctx.Const(0, 64), Iface{}}
	}
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, pr)
	}
	fpr := func(mk func(ex *Exec, st *State, a []Value) Str) intrinsic {
		return func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
			s := mk(ex, st, a)
			w, ok := a[0].(Iface)
			if ok && w.t != nil {
				switch w.t.String() {
				case "*bytes.Buffer", "*strings.Builder":
					ex.appendBuffer(st, w.v.(Ptr), s, w.t.String())
				case "*os.File":
				default:
					panic(unsupported("Fprintf to " + w.t.String()))
				}
			}
			return Tup{ex.ctx.Const(uint64(s.length()), 64), Iface{}}
		}
	}
	reg("fmt.Fprintf", fpr(func(ex *Exec, st *State, a []Value) Str {
		return ex.sprintf(st, ex.fmtFormat(a[1]), ex.ifaceSlice(st, a[2]), false)
	}))
	reg("fmt.Fprint", fpr(func(ex *Exec, st *State, a []Value) Str { return ex.sprint(st, ex.ifaceSlice(st, a[1]), false, false) }))
	reg("fmt.Fprintln", fpr(func(ex *Exec, st *State, a []Value) Str { return ex.sprint(st, ex.ifaceSlice(st, a[1]), true, false) }))
}

func hasSym(v Value) bool {
	switch x := v.(type) {
	case *T:
		return !x.isConst() && !x.isBoolConst()
	case Str:
		return x.t != nil
	case Slice:
		return false
	}
	return false
}

// appendBuffer appends to a bytes.Buffer (buf []byte at slot 0) or strings.Builder.
func (ex *Exec) appendBuffer(st *State, p Ptr, s Str, kind string) {
	if p.obj == 0 {
		panic(goPanic{ex.runtimeErr(st, "invalid memory address or nil pointer dereference")})
	}
	off := p.off
	if kind == "*strings.Builder" {
		off++ // addr, buf
	}
	o := ex.obj(st, p.obj)
	sl := o.slots[off].(Slice)
	var add []Value
	for _, t := range ex.strTerms(s) {
		add = append(add, t)
	}
	ns := ex.appendSlots(st, sl, types.Typ[types.Uint8], add)
	st.heap.mut(p.obj).slots[off] = ns
}
