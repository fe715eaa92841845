package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// gobBuf is the content of a gob stream: the values encoded so far. It is
// immutable; appending makes a new one. Wire bytes are not modelled, the
// contract of encoding/gob is: values come out in the order and with the
// contents they went in, zero-valued struct fields are not transmitted,
// marshalers are called, incompatible types give an error.
type gobBuf struct {
	items []gobVal
	next  int
	cut   bool // the stream breaks off within the value after the last
}

type gobVal struct {
	kind   byte // b bool, i int, u uint, s string, y bytes, f float, S struct, L slice, M map, G marshaled
	v      Value
	fields map[string]gobVal
	elems  []gobVal
	keys   []gobVal
	gob    *gobBuf // payload of a marshaled value
	raw    []*T
	named  string
}

type gobK func(ex *Exec, st *State, g gobVal, err Value)

func (ex *Exec) gobMethod(t types.Type, names ...string) *ssa.Function {
	for _, n := range names {
		ex.w.mu.Lock()
		sel := ex.w.prog.MethodSets.MethodSet(t).Lookup(nil, n)
		var m *ssa.Function
		if sel != nil {
			m = ex.w.prog.MethodValue(sel)
		}
		ex.w.mu.Unlock()
		if m != nil {
			return m
		}
	}
	return nil
}

func (ex *Exec) gobEnc(st *State, v Value, t types.Type, k gobK) {
	// a type (or the pointer to it) that marshals itself
	tt, vv := t, v
	for {
		if m := ex.gobMethod(tt, "GobEncode", "MarshalBinary"); m != nil {
			f := ex.pushFrame(st, m, []Value{vv}, nil, nil)
			f.noRet = true
			f.onRet = func(ex *Exec, st *State, ret Value) {
				r := ret.(Tup)
				if e, ok := r[1].(Iface); ok && e.t != nil {
					k(ex, st, gobVal{}, e)
					return
				}
				s := r[0].(Slice)
				g := gobVal{kind: 'G', named: types.TypeString(derefAll(t), nil)}
				if s.obj != 0 {
					if o := ex.obj(st, s.obj); o.gob != nil {
						g.gob = o.gob
					} else {
						g.raw = ex.bytesOf(st, s)
					}
				}
				k(ex, st, g, Iface{})
			}
			return
		}
		p, ok := tt.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		if vv.(Ptr).obj == 0 {
			panic(strPanic("gob: cannot encode nil pointer of type " + t.String()))
		}
		vv = ex.load(st, vv.(Ptr), p.Elem())
		tt = p.Elem()
	}
	if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
		if m := ex.gobMethod(types.NewPointer(t), "GobEncode", "MarshalBinary"); m != nil {
			id := st.alloc(valSlots(v), t)
			ex.gobEnc(st, Ptr{obj: id}, types.NewPointer(t), k)
			return
		}
	}
	v, t = vv, tt
	ok := func(g gobVal) { k(ex, st, g, Iface{}) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		_, signed := intWidth(u)
		switch {
		case u.Info()&types.IsBoolean != 0:
			ok(gobVal{kind: 'b', v: v})
		case u.Info()&types.IsString != 0:
			ok(gobVal{kind: 's', v: v})
		case u.Info()&types.IsInteger != 0:
			if signed {
				ok(gobVal{kind: 'i', v: ex.ctx.Sext(v.(*T), 64)})
			} else {
				ok(gobVal{kind: 'u', v: ex.ctx.Zext(v.(*T), 64)})
			}
		case u.Info()&types.IsFloat != 0:
			ok(gobVal{kind: 'f', v: v})
		default:
			panic(unsupported("gob of " + t.String()))
		}
		return
	case *types.Slice:
		s := v.(Slice)
		if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Uint8 {
			ok(gobVal{kind: 'y', raw: ex.bytesOf(st, s)})
			return
		}
		ex.gobList(st, s, u.Elem(), 0, nil, k)
		return
	case *types.Map:
		m := v.(MapV)
		if m.obj == 0 {
			ok(gobVal{kind: 'M'})
			return
		}
		ents := append([]MapEntry(nil), ex.obj(st, m.obj).m.ents...)
		ex.gobMap(st, ents, u, nil, nil, k)
		return
	case *types.Struct:
		ex.gobStruct(st, v.(Agg), u, 0, map[string]gobVal{}, k)
		return
	}
	panic(unsupported("gob of " + t.String()))
}

func valSlots(v Value) []Value {
	if a, ok := v.(Agg); ok {
		return append([]Value(nil), a...)
	}
	return []Value{v}
}

func derefAll(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

func (ex *Exec) gobList(st *State, s Slice, et types.Type, i int, acc []gobVal, k gobK) {
	if i >= s.len {
		k(ex, st, gobVal{kind: 'L', elems: acc}, Iface{})
		return
	}
	ev := ex.load(st, Ptr{s.obj, s.off + i*s.es}, et)
	ex.gobEnc(st, ev, et, func(ex *Exec, st *State, g gobVal, err Value) {
		if err.(Iface).t != nil {
			k(ex, st, g, err)
			return
		}
		ex.gobList(st, s, et, i+1, append(append([]gobVal(nil), acc...), g), k)
	})
}

func (ex *Exec) gobMap(st *State, ents []MapEntry, u *types.Map, ks, vs []gobVal, k gobK) {
	i := len(vs)
	if i >= len(ents) {
		k(ex, st, gobVal{kind: 'M', keys: ks, elems: vs}, Iface{})
		return
	}
	ex.gobEnc(st, ents[i].k, u.Key(), func(ex *Exec, st *State, gk gobVal, err Value) {
		ex.gobEnc(st, ents[i].v, u.Elem(), func(ex *Exec, st *State, gv gobVal, err Value) {
			if err.(Iface).t != nil {
				k(ex, st, gv, err)
				return
			}
			ex.gobMap(st, ents, u, append(append([]gobVal(nil), ks...), gk), append(append([]gobVal(nil), vs...), gv), k)
		})
	})
}

// gobZero tells whether a struct field is omitted from the stream.
func (ex *Exec) gobZero(st *State, v Value, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case Str:
			return x.length() == 0
		case *T:
			if x.w == 0 {
				return !ex.decide(st, x)
			}
			return ex.decide(st, ex.ctx.Eq(x, ex.ctx.Const(0, x.w)))
		case Flt:
			return !x.sym() && x.c == 0
		}
	case *types.Slice:
		return v.(Slice).len == 0
	case *types.Map:
		m := v.(MapV)
		return m.obj == 0 || len(ex.obj(st, m.obj).m.ents) == 0
	case *types.Pointer:
		p := v.(Ptr)
		if p.obj == 0 {
			return true
		}
		if isAgg(u.Elem()) {
			return false
		}
		return ex.gobZero(st, ex.load(st, p, u.Elem()), u.Elem())
	}
	return false
}

func (ex *Exec) gobStruct(st *State, a Agg, u *types.Struct, i int, acc map[string]gobVal, k gobK) {
	for ; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		switch f.Type().Underlying().(type) {
		case *types.Chan, *types.Signature:
			continue
		case *types.Interface:
			panic(unsupported("gob of interface field"))
		}
		fv := elemOf(a, ex.lay.fieldOff(u, i), ex.lay.sizeof(f.Type()), f.Type())
		if ex.gobZero(st, fv, f.Type()) {
			continue
		}
		i, f := i, f
		ex.gobEnc(st, fv, f.Type(), func(ex *Exec, st *State, g gobVal, err Value) {
			if err.(Iface).t != nil {
				k(ex, st, g, err)
				return
			}
			n := map[string]gobVal{}
			for kk, vv := range acc {
				n[kk] = vv
			}
			n[f.Name()] = g
			ex.gobStruct(st, a, u, i+1, n, k)
		})
		return
	}
	k(ex, st, gobVal{kind: 'S', fields: acc}, Iface{})
}

type gobDK func(ex *Exec, st *State, err Value)

// gobDec stores g into the variable at p of type t.
func (ex *Exec) gobDec(st *State, g gobVal, p Ptr, t types.Type, k gobDK) {
	bad := func() {
		k(ex, st, ex.mkError(st, Str{s: "gob: type mismatch: wire type not compatible with " + t.String()}))
	}
	// self-unmarshaling types
	tt, pp := t, p
	for {
		if m := ex.gobMethod(types.NewPointer(tt), "GobDecode", "UnmarshalBinary"); m != nil {
			if g.kind != 'G' {
				bad()
				return
			}
			var id int
			if g.gob != nil {
				n := len(g.gob.items) + 1
				slots := make([]Value, n)
				for i := range slots {
					slots[i] = ex.ctx.Const(0, 8)
				}
				id = st.alloc(slots, types.Typ[types.Uint8])
				st.heap.mut(id).gob = &gobBuf{items: g.gob.items}
			} else {
				id = ex.newBytes(st, g.raw).obj
			}
			o := ex.obj(st, id)
			f := ex.pushFrame(st, m, []Value{pp, Slice{id, 0, len(o.slots), len(o.slots), 1}}, nil, nil)
			f.noRet = true
			f.onRet = func(ex *Exec, st *State, ret Value) { k(ex, st, ret) }
			return
		}
		pt, ok := tt.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		q := ex.load(st, pp, tt).(Ptr)
		if q.obj == 0 {
			id := st.alloc(ex.zeroSlots(pt.Elem()), pt.Elem())
			q = Ptr{obj: id}
			ex.store(st, pp, tt, q)
		}
		pp, tt = q, pt.Elem()
	}
	p, t = pp, tt
	done := func() { k(ex, st, Iface{}) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, signed := intWidth(u)
		switch {
		case u.Info()&types.IsBoolean != 0 && g.kind == 'b', u.Info()&types.IsString != 0 && g.kind == 's', u.Info()&types.IsFloat != 0 && g.kind == 'f':
			ex.store(st, p, t, g.v)
			done()
		case u.Info()&types.IsString != 0 && g.kind == 'y':
			bad()
		case w > 0 && (signed && g.kind == 'i' || !signed && g.kind == 'u'):
			ex.store(st, p, t, ex.ctx.Extract(g.v.(*T), 0, w))
			done()
		default:
			bad()
		}
		return
	case *types.Slice:
		if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Uint8 {
			if g.kind != 'y' {
				bad()
				return
			}
			if old := ex.load(st, p, t).(Slice); old.cap >= len(g.raw) && len(g.raw) > 0 {
				// room enough: decoded into the array which is there
				s := old
				s.len = len(g.raw)
				for i, b := range g.raw {
					ex.store(st, Ptr{s.obj, s.off + i*s.es}, u.Elem(), b)
				}
				ex.store(st, p, t, s)
			} else {
				ex.store(st, p, t, ex.newBytes(st, g.raw))
			}
			done()
			return
		}
		if g.kind != 'L' {
			bad()
			return
		}
		s := ex.load(st, p, t).(Slice)
		if s.cap >= len(g.elems) && len(g.elems) > 0 {
			s.len = len(g.elems)
		} else {
			s = ex.makeSlice(st, u.Elem(), len(g.elems), len(g.elems))
		}
		ex.store(st, p, t, s)
		ex.gobDecList(st, g.elems, s, u.Elem(), 0, k)
		return
	case *types.Map:
		if g.kind != 'M' {
			bad()
			return
		}
		m := ex.load(st, p, t).(MapV)
		if m.obj == 0 {
			id := st.alloc(nil, t)
			st.heap.mut(id).m = &MapData{idx: map[string]int{}}
			m = MapV{id}
			ex.store(st, p, t, m)
		}
		ex.gobDecMap(st, g, m, u, 0, k)
		return
	case *types.Struct:
		if g.kind != 'S' {
			bad()
			return
		}
		ex.gobDecStruct(st, g, p, u, 0, k)
		return
	}
	panic(unsupported("gob into " + t.String()))
}

func (ex *Exec) gobDecList(st *State, es []gobVal, s Slice, et types.Type, i int, k gobDK) {
	if i >= len(es) {
		k(ex, st, Iface{})
		return
	}
	ex.gobDec(st, es[i], Ptr{s.obj, s.off + i*s.es}, et, func(ex *Exec, st *State, err Value) {
		if err.(Iface).t != nil {
			k(ex, st, err)
			return
		}
		ex.gobDecList(st, es, s, et, i+1, k)
	})
}

func (ex *Exec) gobDecMap(st *State, g gobVal, m MapV, u *types.Map, i int, k gobDK) {
	if i >= len(g.elems) {
		k(ex, st, Iface{})
		return
	}
	kp := Ptr{obj: st.alloc(ex.zeroSlots(u.Key()), u.Key())}
	vp := Ptr{obj: st.alloc(ex.zeroSlots(u.Elem()), u.Elem())}
	ex.gobDec(st, g.keys[i], kp, u.Key(), func(ex *Exec, st *State, err Value) {
		if err.(Iface).t != nil {
			k(ex, st, err)
			return
		}
		ex.gobDec(st, g.elems[i], vp, u.Elem(), func(ex *Exec, st *State, err Value) {
			if err.(Iface).t != nil {
				k(ex, st, err)
				return
			}
			ex.mapUpdate(st, m, ex.load(st, kp, u.Key()), ex.load(st, vp, u.Elem()), u)
			ex.gobDecMap(st, g, m, u, i+1, k)
		})
	})
}

func (ex *Exec) gobDecStruct(st *State, g gobVal, p Ptr, u *types.Struct, i int, k gobDK) {
	for ; i < u.NumFields(); i++ {
		f := u.Field(i)
		fg, ok := g.fields[f.Name()]
		if !ok || !f.Exported() {
			continue
		}
		i := i
		ex.gobDec(st, fg, Ptr{p.obj, p.off + ex.lay.fieldOff(u, i)}, f.Type(), func(ex *Exec, st *State, err Value) {
			if err.(Iface).t != nil {
				k(ex, st, err)
				return
			}
			ex.gobDecStruct(st, g, p, u, i+1, k)
		})
		return
	}
	k(ex, st, Iface{})
}

// setCallResult stores the result of a call whose intrinsic pushed frames.
func (ex *Exec) setCallResult(st *State, depth int, v Value) {
	g := st.g()
	f := g.frames[depth-1]
	if c, ok := f.block.Instrs[f.idx-1].(*ssa.Call); ok {
		ex.set(f, c, v)
	}
}

func (ex *Exec) ioEOF(st *State) Value { return ex.ioErr(st, "EOF") }

func (ex *Exec) ioErr(st *State, name string) Value {
	p := ex.w.pkgs["io"]
	if p == nil {
		return ex.mkError(st, Str{s: name})
	}
	g := p.Members[name].(*ssa.Global)
	ptr := ex.globalPtr(st, g).(Ptr)
	return ex.load(st, ptr, g.Type().(*types.Pointer).Elem())
}

func init() {
	// encoder/decoder objects: slot 0 holds the writer/reader interface
	mk := func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		id := st.alloc([]Value{a[0]}, pt.Elem())
		return Ptr{obj: id}
	}
	reg("encoding/gob.NewEncoder", mk)
	reg("encoding/gob.NewDecoder", mk)
	reg("encoding/gob.Register", nop)
	reg("(*encoding/gob.Encoder).Encode", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		w, ok := ex.obj(st, a[0].(Ptr).obj).slots[0].(Iface)
		if !ok || w.t == nil || (w.t.String() != "*bytes.Buffer" && w.t.String() != "*os.File") {
			panic(unsupported("gob writer"))
		}
		wp := w.v.(Ptr)
		if wp.off != 0 {
			panic(unsupported("gob writer inside a structure"))
		}
		e := a[1].(Iface)
		if e.t == nil {
			panic(strPanic("gob: cannot encode nil pointer"))
		}
		depth := len(st.g().frames)
		var res Value
		finished := false
		ex.gobEnc(st, e.v, e.t, func(ex *Exec, st *State, g gobVal, err Value) {
			if err.(Iface).t == nil {
				o := st.heap.mut(wp.obj)
				n := &gobBuf{}
				if o.gob != nil {
					n.items = append(n.items, o.gob.items...)
				}
				n.items = append(n.items, g)
				o.gob = n
			}
			if len(st.g().frames) == depth && st.top().idx > 0 && finishedLater(st, depth, fn) {
				ex.setCallResult(st, depth, err)
			}
			res = err
			finished = true
		})
		if finished && len(st.g().frames) == depth {
			return res
		}
		return pushedFrame{}
	})
	reg("(*encoding/gob.Decoder).Decode", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		r, ok := ex.obj(st, a[0].(Ptr).obj).slots[0].(Iface)
		if !ok || r.t == nil {
			panic(unsupported("gob reader"))
		}
		var src int
		switch r.t.String() {
		case "*bytes.Reader":
			rp := r.v.(Ptr)
			s := ex.obj(st, rp.obj).slots[rp.off].(Slice)
			if s.len == 0 {
				return ex.ioEOF(st)
			}
			if rp.off != 0 {
				panic(unsupported("gob reader inside a structure"))
			}
			src = rp.obj
			if ex.obj(st, src).gob == nil { // the position is the reader's, not the data's
				st.heap.mut(src).gob = ex.obj(st, s.obj).gob
			}
		case "*bytes.Buffer", "*os.File":
			src = r.v.(Ptr).obj
		default:
			panic(unsupported("gob reader " + r.t.String()))
		}
		o := ex.obj(st, src)
		if o.gob == nil {
			if len(o.slots) == 0 {
				return ex.ioEOF(st)
			}
			panic(unsupported("gob decoding of raw bytes"))
		}
		if o.gob.next >= len(o.gob.items) {
			if o.gob.cut {
				return ex.ioErr(st, "ErrUnexpectedEOF")
			}
			return ex.ioEOF(st)
		}
		g := o.gob.items[o.gob.next]
		e := a[1].(Iface)
		pt, isP := e.t.Underlying().(*types.Pointer)
		if !isP {
			return ex.mkError(st, Str{s: "gob: attempt to decode into a non-pointer"})
		}
		st.heap.mut(src).gob = &gobBuf{items: o.gob.items, next: o.gob.next + 1, cut: o.gob.cut}
		depth := len(st.g().frames)
		var res Value
		finished := false
		ex.gobDec(st, g, e.v.(Ptr), pt.Elem(), func(ex *Exec, st *State, err Value) {
			if len(st.g().frames) == depth && finishedLater(st, depth, fn) {
				ex.setCallResult(st, depth, err)
			}
			res = err
			finished = true
		})
		if finished && len(st.g().frames) == depth {
			return res
		}
		return pushedFrame{}
	})
	toBytes := func(ex *Exec, st *State, p Ptr) Value {
		o := ex.obj(st, p.obj)
		if o.gob == nil {
			return notHandled{}
		}
		slots := make([]Value, len(o.gob.items)-o.gob.next+1)
		for i := range slots {
			slots[i] = ex.ctx.Const(0, 8)
		}
		id := st.alloc(slots, types.Typ[types.Uint8])
		st.heap.mut(id).gob = o.gob
		return Slice{id, 0, len(slots), len(slots), 1}
	}
	reg("(*bytes.Buffer).Bytes", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		return toBytes(ex, st, a[0].(Ptr))
	})
	reg("bytes.NewBuffer", func(ex *Exec, st *State, call *ssa.CallCommon, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		if s.obj == 0 || ex.obj(st, s.obj).gob == nil {
			return notHandled{}
		}
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		id := st.alloc(ex.zeroSlots(pt.Elem()), pt.Elem())
		st.heap.mut(id).gob = ex.obj(st, s.obj).gob
		return Ptr{obj: id}
	})
}

// finishedLater: the continuation runs from a callee's return, when the call
// instruction has already been stepped over.
func finishedLater(st *State, depth int, fn *ssa.Function) bool {
	f := st.g().frames[depth-1]
	if f.idx == 0 {
		return false
	}
	c, ok := f.block.Instrs[f.idx-1].(*ssa.Call)
	return ok && c.Call.StaticCallee() == fn
}
