package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func one(n *Node) []*Node { return []*Node{n} }

// instr interprets one instruction that is not a terminator.
func (e *fexec) instr(n *Node, in ssa.Instruction) []*Node {
	x := e.x
	x.step()

	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(n)
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		id := n.st.newVar(t, nil, in.Comment)

		if at, ok := t.Underlying().(*types.Array); ok {
			o := n.st.heap[id]
			o.kind = 'a'
			o.typ = at.Elem()
			o.size = linC(at.Len())

			if at.Len() <= 64 {
				o.conc = true
				for i := int64(0); i < at.Len(); i++ {
					o.elems = append(o.elems, x.zeroVal(at.Elem()))
				}
			} else {
				o.zero = true
			}
		} else {
			n.st.heap[id].val = x.zeroVal(t)
		}

		n.env[in] = Ptr{obj: id, nil_: bddFalse}
	case *ssa.Store:
		return e.eachPtr(n, in.Addr, in, func(n *Node, p Ptr) {
			x.store(e.fr, n.st, in, p, e.val(n, in.Val))
		})
	case *ssa.UnOp:
		return e.unop(n, in)
	case *ssa.BinOp:
		n.env[in] = x.binop(n.st, in.Op, e.val(n, in.X), e.val(n, in.Y), in.X.Type(), in.Type())
	case *ssa.FieldAddr:
		return e.eachPtr(n, in.X, in, func(n *Node, p Ptr) {
			x.derefHook(e.fr, n.st, in, p.nil_)
			p.path += "/" + strconv.Itoa(in.Field)
			p.nil_ = bddFalse
			n.env[in] = p
		})
	case *ssa.Field:
		n.env[in] = x.field(n.st, e.val(n, in.X), in.Field, in.Type())
	case *ssa.IndexAddr:
		return e.indexAddr(n, in)
	case *ssa.Index:
		v := e.val(n, in.X)
		i := numOf(e.val(n, in.Index))

		if s, ok := v.(Str); ok {
			n.env[in] = x.strIndex(n.st, s, i)
			break
		}

		if t, ok := v.(Tup); ok {
			if c, ok := i.isConst(); ok && c >= 0 && int(c) < len(t.fs) {
				n.env[in] = t.fs[c]
			} else {
				n.env[in] = n.st.pick(t.fs, i, in.Type(), freshName("index"))
			}

			break
		}

		n.env[in] = x.fresh(n.st, in.Type(), freshName("index"))
	case *ssa.Lookup:
		return e.lookup(n, in)
	case *ssa.Extract:
		t, ok := e.val(n, in.Tuple).(Tup)
		if !ok || in.Index >= len(t.fs) {
			panic(fmt.Sprintf("extract of %T in %s", e.val(n, in.Tuple), e.fr.fn))
		}

		n.env[in] = t.fs[in.Index]
	case *ssa.ChangeType:
		n.env[in] = x.retype(n.st, e.val(n, in.X), in.X.Type(), in.Type())
	case *ssa.Convert:
		n.env[in] = x.convert(n.st, e.val(n, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		n.env[in] = x.convert(n.st, e.val(n, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		n.env[in] = e.val(n, in.X)
	case *ssa.MakeInterface:
		n.env[in] = Ifc{nil_: bddFalse, typ: in.X.Type(), val: e.val(n, in.X)}
	case *ssa.TypeAssert:
		return e.typeAssert(n, in)
	case *ssa.MakeClosure:
		f := Fun{nil_: bddFalse, fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.binds = append(f.binds, e.val(n, b))
		}

		n.env[in] = f
	case *ssa.MakeSlice:
		l, c := numOf(e.val(n, in.Len)), numOf(e.val(n, in.Cap))
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := &Obj{typ: et, kind: 'a', size: c}

		if k, ok := c.isConst(); ok && k <= 64 {
			o.conc = true
			for i := int64(0); i < k; i++ {
				o.elems = append(o.elems, x.zeroVal(et))
			}
		} else {
			o.zero = true
		}

		if h := x.hooks.assertF; h != nil {
			h(e.fr, n.st, in)
		}

		n.env[in] = Slc{obj: n.st.newObj(o), len: l, cap: c, nil_: bddFalse}
	case *ssa.MakeMap:
		id := n.st.newObj(&Obj{typ: in.Type(), kind: 'm', conc: true})
		n.env[in] = Ref{nil_: bddFalse, obj: id}
	case *ssa.MakeChan:
		n.env[in] = Ref{nil_: bddFalse, term: chanTerm(e.fr, in)}
	case *ssa.MapUpdate:
		if x.fmaps {
			return x.mapSet(n, e.val(n, in.Map), e.val(n, in.Key), e.val(n, in.Value))
		}

		e.mapUpdate(n, e.val(n, in.Map), e.val(n, in.Key), e.val(n, in.Value))
	case *ssa.Range:
		if h := x.hooks.rangeM; h != nil {
			h(e.fr, n.st, in, e.val(n, in.X))
		}

		if r, ok := e.val(n, in.X).(Ref); ok && x.fmaps {
			if o := n.st.obj(r.obj); o != nil && o.conc {
				c := *o
				n.env[in] = Tup{[]Val{Ref{obj: n.st.newObj(&c), nil_: bddConst(n.st.decide(r.nil_) == 1)}, Ptr{obj: n.st.newVar(types.Typ[types.Int], Num{linC(0)}, "range"), nil_: bddFalse}, r}}

				break
			}
		}

		n.env[in] = Tup{[]Val{e.val(n, in.X), Ptr{obj: n.st.newVar(types.Typ[types.Int], Num{linC(0)}, "range"), nil_: bddFalse}}}
	case *ssa.Next:
		return e.next(n, in)
	case *ssa.Slice:
		return e.slice(n, in)
	case *ssa.SliceToArrayPointer:
		n.env[in] = x.fresh(n.st, in.Type(), freshName("arrptr"))
	case *ssa.Defer:
		n.defers = &deferList{instr: in, fn: e.callee(n, in), args: e.args(n, in), next: n.defers}
	case *ssa.RunDefers:
		return e.runDefers(n)
	case *ssa.Go:
		if h := x.hooks.goStmt; h != nil {
			h(e.ctx(n, in))
		}
	case *ssa.Send:
		if h := x.hooks.send; h != nil {
			h(e.fr, n, e.val(n, in.Chan), e.val(n, in.X), in)
			if n.st.dead {
				return nil
			}
		}
	case *ssa.Select:
		return e.sel(n, in)
	case *ssa.Call:
		return e.call(n, in)
	case *ssa.Phi:
	default:
		panic(fmt.Sprintf("instruction %T", in))
	}

	return one(n)
}

// eachPtr resolves an address.
func (e *fexec) eachPtr(n *Node, addr ssa.Value, in ssa.Instruction, do func(*Node, Ptr)) []*Node {
	v := e.val(n, addr)

	p, ok := v.(Ptr)
	if !ok {
		t := addr.Type().Underlying().(*types.Pointer).Elem()
		p = Ptr{obj: e.x.lazyObj("ptr:"+valKey(v), 'v', t), nil_: bddFalse}
	}

	if p.obj == 0 {
		// nil: this path panics
		e.x.derefHook(e.fr, n.st, in, bddTrue)
		return nil
	}

	do(n, p)

	return one(n)
}

func (x *Interp) derefHook(fr *Frame, st *State, in ssa.Instruction, nil_ *bdd) {
	if nil_ == bddFalse {
		return
	}

	if h := x.hooks.deref; h != nil {
		h(fr, st, in, nil_)
	}

	if nil_ != bddTrue {
		st.assume(bNot(nil_))
	}
}

func (x *Interp) field(st *State, v Val, i int, t types.Type) Val {
	if tu, ok := v.(Tup); ok && i < len(tu.fs) {
		return tu.fs[i]
	}

	return x.fresh(st, t, "field("+valKey(v)+","+strconv.Itoa(i)+")")
}

func splitPath(p string) []int {
	if p == "" {
		return nil
	}

	var out []int

	for _, s := range strings.Split(p[1:], "/") {
		k, _ := strconv.Atoi(s)
		out = append(out, k)
	}

	return out
}

func typeAt(t types.Type, path []int) types.Type {
	for _, k := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(k).Type()
		case *types.Array:
			t = u.Elem()
		default:
			return t
		}
	}

	return t
}

func (x *Interp) walk(st *State, v Val, t types.Type, path []int) Val {
	for _, k := range path {
		ft := typeAt(t, []int{k})
		v = x.field(st, v, k, ft)
		t = ft
	}

	return v
}

func (x *Interp) update(st *State, v Val, t types.Type, path []int, w Val) Val {
	if len(path) == 0 {
		return w
	}

	tu, ok := v.(Tup)
	if !ok {
		f, ok2 := x.fresh(st, t, "open("+valKey(v)+")").(Tup)
		if !ok2 {
			return Opq{freshName("update")}
		}

		tu = f
	}

	fs := append([]Val(nil), tu.fs...)
	k := path[0]

	if k >= len(fs) {
		return v
	}

	fs[k] = x.update(st, fs[k], typeAt(t, path[:1]), path[1:], w)

	return Tup{fs}
}

// load reads through a pointer.
func (x *Interp) load(st *State, p Ptr, t types.Type) Val {
	o := st.obj(p.obj)
	if o == nil {
		return x.fresh(st, t, freshName("load"))
	}

	path := splitPath(p.path)

	if o.kind == 'a' {
		if p.idx == nil {
			// the array as a whole
			if o.conc {
				if at, ok := t.Underlying().(*types.Array); ok && int(at.Len()) == len(o.elems) {
					return Tup{append([]Val(nil), o.elems...)}
				}
			}

			if len(path) > 0 {
				return x.walk(st, st.elem(p.obj, linC(int64(path[0]))), o.typ, path[1:])
			}

			return x.fresh(st, t, freshName("array"))
		}

		return x.walk(st, st.elem(p.obj, *p.idx), o.typ, path)
	}

	if p.idx != nil {
		return x.walk(st, st.elem(p.obj, *p.idx), arrElem(o.typ), path)
	}

	return x.walk(st, o.val, o.typ, path)
}

func (x *Interp) store(fr *Frame, st *State, in ssa.Instruction, p Ptr, v Val) {
	x.derefHook(fr, st, in, p.nil_)

	if h := x.hooks.store; h != nil {
		h(fr, st, in, p, v)
	}

	o := st.obj(p.obj)
	if o == nil {
		x.noteOnce("a store through an unknown pointer at " + x.p.at(in))
		return
	}

	if o.sealed {
		x.noteOnce("a store through a joined pointer at " + x.p.at(in))
	}

	path := splitPath(p.path)

	if o.kind == 'a' || p.idx != nil {
		switch {
		case p.idx == nil && len(path) > 0:
			i := linC(int64(path[0]))
			st.setElem(p.obj, i, x.update(st, st.elem(p.obj, i), o.typ, path[1:], v))
		case p.idx == nil:
			n := o.copy()

			if t, ok := v.(Tup); ok && o.conc && len(t.fs) == len(o.elems) {
				n.elems = append([]Val(nil), t.fs...)
			} else {
				n.conc, n.zero, n.elems, n.term, n.pos = false, false, nil, freshName("array"), nil
			}

			st.heap[p.obj] = n
		case len(path) == 0:
			st.setElem(p.obj, *p.idx, v)
		default:
			st.setElem(p.obj, *p.idx, x.update(st, st.elem(p.obj, *p.idx), arrElem(o.typ), path, v))
		}

		return
	}

	n := *o
	n.val = x.update(st, o.val, o.typ, path, v)
	st.heap[p.obj] = &n
}

func (e *fexec) unop(n *Node, in *ssa.UnOp) []*Node {
	x := e.x

	switch in.Op {
	case token.MUL:
		return e.eachPtr(n, in.X, in, func(n *Node, p Ptr) {
			x.derefHook(e.fr, n.st, in, p.nil_)

			if h := x.hooks.load; h != nil {
				h(e.fr, n.st, in, p)
			}

			n.env[in] = x.load(n.st, p, in.Type())
		})
	case token.NOT:
		n.env[in] = Boo{bNot(boolOf(e.val(n, in.X)))}
	case token.SUB:
		switch v := e.val(n, in.X).(type) {
		case Num:
			n.env[in] = Num{v.l.neg()}
		case Flt:
			f := Flt{term: "-(" + v.term + ")"}
			if x.reals != nil {
				f.term = x.realTerm(token.SUB, Flt{term: "0"}, v)
			}

			if v.hi != nil {
				l := v.hi.neg()
				f.lo = &l
			}

			if v.lo != nil {
				l := v.lo.neg()
				f.hi = &l
			}

			n.env[in] = f
		default:
			n.env[in] = x.fresh(n.st, in.Type(), "neg("+valKey(v)+")")
		}
	case token.XOR:
		v := e.val(n, in.X)
		if b, ok := v.(BV); ok {
			r := BV{make([]*bdd, len(b.bits))}
			for i := range r.bits {
				r.bits[i] = bNot(b.bits[i])
			}

			n.env[in] = r
		} else if !isUnsigned(in.Type()) {
			n.env[in] = Num{numOf(v).neg().addConst(-1)}
		} else {
			n.env[in] = x.fresh(n.st, in.Type(), "not("+valKey(v)+")")
		}
	case token.ARROW:
		var v Val
		if h := x.hooks.recv; h != nil {
			v = h(e.fr, n, e.val(n, in.X), in)
			if n.st.dead {
				return nil
			}
		}

		et := in.X.Type().Underlying().(*types.Chan).Elem()
		if v == nil {
			v = x.fresh(n.st, et, freshName("recv"))
		}

		if in.CommaOk {
			n.env[in] = Tup{[]Val{v, Boo{bddVar(atomOf(freshName("recvok")))}}}
		} else {
			n.env[in] = v
		}
	}

	return one(n)
}

// elemKey looks for the array of a slice or of a pointer to an array.
func (e *fexec) indexAddr(n *Node, in *ssa.IndexAddr) []*Node {
	x := e.x
	i := numOf(e.val(n, in.Index))

	switch v := e.val(n, in.X).(type) {
	case Slc:
		if h := x.hooks.index; h != nil {
			h(e.fr, n.st, in, i, v.len)
		}

		// the access is in range, or this path panics
		if !e.inRange(n.st, i, v.len) || v.obj == 0 {
			return nil
		}

		k := v.off.add(i)
		if o := n.st.obj(v.obj); o != nil && o.conc && len(o.elems) > 1 && len(o.elems) <= 4 {
			if _, ok := k.isConst(); !ok {
				var out []*Node

				for q := range o.elems {
					m := n.fork()
					if m.st.assume(bEQ(k.addConst(-int64(q)))) {
						c := linC(int64(q))
						m.env[in] = Ptr{obj: v.obj, idx: &c, nil_: bddFalse}
						out = append(out, m)
					}
				}

				return out
			}
		}

		n.env[in] = Ptr{obj: v.obj, idx: &k, nil_: bddFalse}
	case Ptr:
		if v.obj == 0 {
			return nil
		}

		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if h := x.hooks.index; h != nil {
			h(e.fr, n.st, in, i, linC(at.Len()))
		}

		if !e.inRange(n.st, i, linC(at.Len())) {
			return nil
		}

		o := n.st.obj(v.obj)
		if o != nil && o.kind == 'a' && v.path == "" && v.idx == nil {
			if _, ok := i.isConst(); ok || at.Len() > 4 {
				n.env[in] = Ptr{obj: v.obj, idx: &i, nil_: bddFalse}
				break
			}
		}

		if c, ok := i.isConst(); ok {
			p := v
			if o != nil && o.kind == 'a' && v.idx == nil && v.path == "" {
				p.idx = &i
			} else {
				p.path += "/" + strconv.FormatInt(c, 10)
			}

			p.nil_ = bddFalse
			n.env[in] = p

			break
		}

		if at.Len() <= 8 {
			var out []*Node

			for q := int64(0); q < at.Len(); q++ {
				m := n.fork()
				if !m.st.assume(bEQ(i.addConst(-q))) {
					continue
				}

				p := v
				if o != nil && o.kind == 'a' && v.idx == nil && v.path == "" {
					c := linC(q)
					p.idx = &c
				} else {
					p.path += "/" + strconv.FormatInt(q, 10)
				}

				p.nil_ = bddFalse
				m.env[in] = p
				out = append(out, m)
			}

			return out
		}

		if v.path == "" && v.idx == nil {
			n.env[in] = Ptr{obj: v.obj, idx: &i, nil_: bddFalse}
		} else {
			n.env[in] = Ptr{obj: x.lazyObj(freshName("elem"), 'v', at.Elem()), nil_: bddFalse}
		}
	default:
		n.env[in] = x.fresh(n.st, in.Type(), freshName("indexaddr"))
	}

	return one(n)
}

func (e *fexec) inRange(st *State, i, l Lin) bool {
	return st.assume(bAnd(bGE(i), bGE(l.sub(i).addConst(-1))))
}

func (x *Interp) strLen(st *State, s Str) Lin {
	r := linC(0)

	for _, p := range s.parts {
		if p.term == "" && p.num == nil {
			r = r.addConst(int64(len(p.c)))
			continue
		}

		k := "len(" + p.term + ")"
		if p.num != nil {
			k = "len(num " + p.num.key() + ")"
		}

		y := symOf(k)
		syms[y].lo = i64(0)

		if p.num != nil || isCluster(p) {
			syms[y].lo = i64(1)
		}

		if isJoinTerm(p.term) {
			syms[y].bindable = true
		}

		r = r.add(linS(y))
	}

	return r
}

func (x *Interp) strIndex(st *State, s Str, i Lin) Val {
	if c, ok := s.constant(); ok {
		if k, ok := i.isConst(); ok && k >= 0 && int(k) < len(c) {
			return Num{linC(int64(c[k]))}
		}
	}

	return x.fresh(st, types.Typ[types.Byte], "byte("+s.key()+","+i.key()+")")
}

func (e *fexec) slice(n *Node, in *ssa.Slice) []*Node {
	x := e.x
	v := e.val(n, in.X)

	get := func(o ssa.Value, def Lin) Lin {
		if o == nil {
			return def
		}

		return numOf(e.val(n, o))
	}

	switch v := v.(type) {
	case Str:
		l := x.strLen(n.st, v)
		lo, hi := get(in.Low, linC(0)), get(in.High, l)

		if h := x.hooks.slice; h != nil {
			h(e.fr, n.st, in, lo, hi, hi, l)
		}

		if !n.st.assume(bAnd(bGE(lo), bAnd(bGE(hi.sub(lo)), bGE(l.sub(hi))))) {
			return nil
		}

		if c, ok := v.constant(); ok {
			a, ok1 := lo.isConst()
			b, ok2 := hi.isConst()

			if ok1 && ok2 && a <= b && int(b) <= len(c) {
				n.env[in] = strC(c[a:b])
				return one(n)
			}
		}

		if lo.eq(linC(0)) && hi.eq(l) {
			n.env[in] = v
			return one(n)
		}

		term := "sub(" + v.key() + "," + lo.key() + "," + hi.key() + ")"
		r := Str{[]strPart{{term: term}}}
		rl := x.strLen(n.st, r)
		d := rl.sub(hi.sub(lo))
		n.st.addCons(d)
		n.st.addCons(d.neg())
		n.env[in] = r
	case Slc:
		lo := get(in.Low, linC(0))
		hi := get(in.High, v.len)
		mx := get(in.Max, v.cap)

		if h := x.hooks.slice; h != nil {
			h(e.fr, n.st, in, lo, hi, mx, v.cap)
		}

		if !n.st.assume(bAnd(bAnd(bGE(lo), bGE(hi.sub(lo))), bAnd(bGE(mx.sub(hi)), bGE(v.cap.sub(mx))))) {
			return nil
		}

		n.env[in] = Slc{obj: v.obj, off: v.off.add(lo), len: hi.sub(lo), cap: mx.sub(lo), nil_: v.nil_}
	case Ptr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		lo, hi := get(in.Low, linC(0)), get(in.High, linC(at.Len()))
		mx := get(in.Max, linC(at.Len()))

		if h := x.hooks.slice; h != nil {
			h(e.fr, n.st, in, lo, hi, mx, linC(at.Len()))
		}

		if v.path != "" || v.idx != nil {
			n.env[in] = x.fresh(n.st, in.Type(), freshName("slice"))
			break
		}

		n.env[in] = Slc{obj: v.obj, off: lo, len: hi.sub(lo), cap: mx.sub(lo), nil_: bddFalse}
	default:
		n.env[in] = x.fresh(n.st, in.Type(), freshName("slice"))
	}

	return one(n)
}

// keyEq is the condition that two map keys are equal.
func (x *Interp) keyEq(st *State, a, b Val, t types.Type) *bdd {
	if x.keyID != nil {
		if i := x.keyID(t); i >= 0 {
			ta, ok1 := a.(Tup)
			tb, ok2 := b.(Tup)

			if ok1 && ok2 {
				return x.equal(st, ta.fs[i], tb.fs[i], types.Typ[types.Int])
			}
		}
	}

	return x.equal(st, a, b, t)
}

func (e *fexec) lookup(n *Node, in *ssa.Lookup) []*Node {
	x := e.x
	m := e.val(n, in.X)
	k := e.val(n, in.Index)

	if s, ok := m.(Str); ok {
		if h := x.hooks.index; h != nil {
			h(e.fr, n.st, in, numOf(k), x.strLen(n.st, s))
		}

		if !e.inRange(n.st, numOf(k), x.strLen(n.st, s)) {
			return nil
		}

		n.env[in] = x.strIndex(n.st, s, numOf(k))
		return one(n)
	}

	mt := in.X.Type().Underlying().(*types.Map)
	r, _ := m.(Ref)
	o := n.st.obj(r.obj)

	set := func(n *Node, v Val, ok *bdd) *Node {
		if in.CommaOk {
			n.env[in] = Tup{[]Val{v, Boo{ok}}}
		} else {
			n.env[in] = v
		}

		return n
	}

	if r.nil_ == bddTrue {
		return one(set(n, x.zeroVal(mt.Elem()), bddFalse))
	}

	if o != nil && o.conc && !x.fmaps {
		if out, done := e.lookupConc(n, o, k, mt, set); done {
			return out
		}
	}

	term := "map:" + r.term
	if o != nil {
		term = "map:" + o.term
	}

	term += "[" + valKey(k) + "]"
	ok := bddVar(atomOf("has " + term))
	v := x.fresh(n.st, mt.Elem(), term)

	// absent: the zero value
	absent := n.fork()

	var out []*Node

	if n.st.assume(ok) {
		out = append(out, set(n, v, bddTrue))
	}

	if absent.st.assume(bNot(ok)) {
		out = append(out, set(absent, x.zeroVal(mt.Elem()), bddFalse))
	}

	return out
}

func (e *fexec) lookupConc(n *Node, o *Obj, k Val, mt *types.Map, set func(*Node, Val, *bdd) *Node) ([]*Node, bool) {
	x := e.x

	// an unknown string in a long table
	if s, ok := k.(Str); ok && len(o.keys) > 40 {
		if _, ok := x.byteStr(s); ok {
			return nil, false
		}
	}

	var maybe []int

	for i := len(o.keys) - 1; i >= 0; i-- {
		c := x.keyEq(n.st, o.keys[i], k, mt.Key())

		switch {
		case c == bddTrue || len(maybe) == 0 && n.st.decide(c) == 1:
			if len(maybe) == 0 {
				return one(set(n, o.elems[i], bddTrue)), true
			}

			maybe = append(maybe, i)
		case c == bddFalse || n.st.decide(c) == 0:
		default:
			maybe = append(maybe, i)
		}
	}

	if len(maybe) == 0 {
		return one(set(n, x.zeroVal(mt.Elem()), bddFalse)), true
	}

	if len(maybe) > 40 {
		return nil, false
	}

	var out []*Node

	cur := n

	for _, i := range maybe {
		c := x.keyEq(cur.st, o.keys[i], k, mt.Key())
		h := cur.fork()

		if h.st.assume(c) {
			out = append(out, set(h, o.elems[i], bddTrue))
		}

		if !cur.st.assume(bNot(c)) {
			return out, true
		}
	}

	return append(out, set(cur, x.zeroVal(mt.Elem()), bddFalse)), true
}

func (e *fexec) mapUpdate(n *Node, m, k, v Val) {
	r, _ := m.(Ref)
	if r.obj == 0 {
		return
	}

	o := n.st.obj(r.obj)
	if o == nil {
		return
	}

	c := *o
	if !o.conc {
		c.term = freshName("map")
		n.st.heap[r.obj] = &c

		return
	}

	c.keys = append([]Val(nil), o.keys...)
	c.elems = append([]Val(nil), o.elems...)

	for i := range c.keys {
		eq := e.x.keyEq(n.st, c.keys[i], k, o.typ.Underlying().(*types.Map).Key())
		if eq == bddTrue {
			c.elems[i] = v
			n.st.heap[r.obj] = &c

			return
		}

		if eq != bddFalse && n.st.decide(eq) < 0 {
			n.st.heap[r.obj] = &Obj{typ: o.typ, kind: 'm', term: freshName("map")}
			return
		}
	}

	c.keys = append(c.keys, k)
	c.elems = append(c.elems, v)
	n.st.heap[r.obj] = &c
}

// nextDecided reports that the iteration over a constant is decided.
func (e *fexec) nextDecided(n *Node, in *ssa.Next) (bool, bool) {
	t, ok := e.val(n, in.Iter).(Tup)
	if !ok {
		return false, false
	}

	if _, ok := numOf(e.x.load(n.st, t.fs[1].(Ptr), types.Typ[types.Int])).isConst(); !ok {
		return false, false
	}

	switch v := t.fs[0].(type) {
	case Str:
		_, ok := v.constant()
		return ok, ok
	case Ref:
		if v.nil_ == bddTrue {
			return true, true
		}

		o := n.st.obj(v.obj)

		return o != nil && o.conc && v.nil_ == bddFalse, true
	}

	return false, false
}

func (e *fexec) next(n *Node, in *ssa.Next) []*Node {
	x := e.x
	t := e.val(n, in.Iter).(Tup)
	pos := t.fs[1].(Ptr)
	tt := in.Type().(*types.Tuple)

	if d, _ := e.nextDecided(n, in); d {
		i, _ := numOf(x.load(n.st, pos, types.Typ[types.Int])).isConst()

		switch v := t.fs[0].(type) {
		case Str:
			c, _ := v.constant()
			if int(i) >= len(c) {
				n.env[in] = Tup{[]Val{Boo{bddFalse}, Num{linC(0)}, Num{linC(0)}}}
				return one(n)
			}

			r, size := utf8.DecodeRuneInString(c[i:])
			x.setVar(n.st, pos, Num{linC(i + int64(size))})

			rv := Val(Num{linC(int64(r))})
			if isBits(types.Typ[types.Rune]) {
				rv = bvConst(uint64(r), 32)
			}

			n.env[in] = Tup{[]Val{Boo{bddTrue}, Num{linC(i)}, rv}}

			return one(n)
		case Ref:
			o := n.st.obj(v.obj)

			if len(t.fs) == 3 {
				i = x.skipGone(n.st, o, t.fs[2].(Ref), i)
			}

			if v.nil_ == bddTrue || o == nil || int(i) >= len(o.keys) {
				n.env[in] = Tup{[]Val{Boo{bddFalse}, nil, nil}}
				return one(n)
			}

			x.setVar(n.st, pos, Num{linC(i + 1)})
			n.env[in] = Tup{[]Val{Boo{bddTrue}, o.keys[i], o.elems[i]}}

			if len(t.fs) == 3 {
				n.env[in] = Tup{[]Val{Boo{bddTrue}, o.keys[i], n.st.mapElem(t.fs[2].(Ref), o.keys[i])}}
			}

			return one(n)
		}
	}

	name := freshName("next")
	r := Tup{[]Val{Boo{bddVar(atomOf(name + ".ok"))}, nil, nil}}

	for i := 1; i <= 2; i++ {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			continue
		}

		r.fs[i] = x.fresh(n.st, tt.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
	}

	if s, ok := t.fs[0].(Str); ok && in.IsString {
		l := x.strLen(n.st, s)
		if r.fs[1] != nil {
			k := numOf(r.fs[1])
			n.st.addCons(k)
			n.st.facts = bAnd(n.st.facts, bImp(r.fs[0].(Boo).b, bGE(l.sub(k).addConst(-1))))
		}
	}

	n.env[in] = r

	return one(n)
}

func (x *Interp) setVar(st *State, p Ptr, v Val) {
	o := *st.obj(p.obj)
	o.val = v
	st.heap[p.obj] = &o
}

// chanTerm names a channel by where it is made and how that was called.
func chanTerm(fr *Frame, in *ssa.MakeChan) string {
	t := fmt.Sprintf("chan@%d", in.Pos())
	for f := fr; f != nil; f = f.parent {
		if f.site != nil {
			t += fmt.Sprintf("<%d", instrPos(f.site))
		}
	}

	return t
}

func (e *fexec) sel(n *Node, in *ssa.Select) []*Node {
	x := e.x

	var out []*Node

	nr := 0
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			nr++
		}
	}

	mk := func(m *Node, k int, recv Val, ri int) {
		t := Tup{make([]Val, 2+nr)}
		t.fs[0] = Num{linC(int64(k))}
		t.fs[1] = Boo{bddVar(atomOf(freshName("selok")))}

		q := 0

		for _, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}

			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if q == ri && recv != nil {
				t.fs[2+q] = recv
			} else if q == ri {
				t.fs[2+q] = x.fresh(m.st, et, freshName("recv"))
			} else {
				t.fs[2+q] = x.zeroVal(et)
			}

			q++
		}

		m.env[in] = t
		out = append(out, m)
	}

	ri := 0

	var chans []Val
	for _, s := range in.States {
		chans = append(chans, e.val(n, s.Chan))
	}

	for k, s := range in.States {
		m := n.fork()

		var (
			v  Val
			ok = true
		)

		if h := x.hooks.sel; h != nil {
			var sent Val
			if s.Send != nil {
				sent = e.val(n, s.Send)
			}

			v, ok = h(e.fr, m, in, k, chans, sent)
		}

		idx := -1
		if s.Dir == types.RecvOnly {
			idx = ri
			ri++
		}

		if ok && !m.st.dead {
			mk(m, k, v, idx)
		}
	}

	if !in.Blocking {
		mk(n.fork(), len(in.States), nil, -1)
	}

	return out
}

// typeTerm is the atom that an unknown interface value has a dynamic type.
func typeAtom(term string, t types.Type) *bdd {
	return bddVar(atomOf("type(" + term + ")=" + t.String()))
}

func (e *fexec) typeAssert(n *Node, in *ssa.TypeAssert) []*Node {
	x := e.x
	v, ok := e.val(n, in.X).(Ifc)

	if !ok {
		v = Ifc{nil_: bddVar(atomOf("nil:" + valKey(e.val(n, in.X)))), term: valKey(e.val(n, in.X))}
	}

	at := in.AssertedType
	_, toIface := at.Underlying().(*types.Interface)

	var out []*Node

	set := func(m *Node, r Val, good bool) {
		if in.CommaOk {
			m.env[in] = Tup{[]Val{r, Boo{bddConst(good)}}}
			out = append(out, m)

			return
		}

		if good {
			m.env[in] = r
			out = append(out, m)
		}
		// a failing assertion panics: this path is not followed
	}

	zero := x.zeroVal(at)

	if v.nil_ == bddTrue {
		set(n, zero, false)
		return out
	}

	if v.typ != nil {
		good := types.Identical(v.typ, at)
		if toIface {
			good = types.Implements(v.typ, at.Underlying().(*types.Interface))
		}

		if v.nil_ != bddFalse {
			m := n.fork()
			if m.st.assume(v.nil_) {
				set(m, zero, false)
			}

			if !n.st.assume(bNot(v.nil_)) {
				return out
			}
		}

		if !good {
			set(n, zero, false)
			return out
		}

		if toIface {
			set(n, Ifc{nil_: bddFalse, typ: v.typ, val: v.val, errs: v.errs}, true)
		} else {
			set(n, v.val, true)
		}

		return out
	}

	// unknown dynamic type
	is := typeAtom(v.term, at)
	if toIface {
		is = bddVar(atomOf("impl(" + v.term + ")=" + at.String()))
	}

	cond := bAnd(bNot(v.nil_), is)
	m := n.fork()

	if m.st.assume(bNot(cond)) {
		set(m, zero, false)
	}

	if !toIface {
		// a value has one dynamic type
		for _, a := range bddSupport(n.st.facts) {
			k := atoms[a].key
			if strings.HasPrefix(k, "type("+v.term+")=") && bddVar(a) != is {
				if !n.st.assume(bNot(bddVar(a))) {
					return out
				}
			}
		}
	}

	if n.st.assume(cond) {
		if toIface {
			set(n, Ifc{nil_: bddFalse, term: v.term}, true)
		} else {
			set(n, x.fresh(n.st, at, v.term+".("+shortType(at)+")"), true)
		}
	}

	return out
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}
