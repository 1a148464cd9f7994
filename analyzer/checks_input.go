package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("I01", checkI01)
	register("I03", checkI03)
	register("I04", checkI04)
}

// checkI04 evaluates the decoder on mouse reports of every button code. The
// coordinates are symbolic: in X10 reports the bytes, in SGR reports the
// numbers that two unusual numerals stand for.
func checkI04(c *Check) {
	p := c.prog("linux")
	fn := decoderOf(p)
	where := p.pos(fn.Pos())
	msgT := p.named("", "MouseMsg")
	konst := func(name string) int64 {
		v, _ := constant.Int64Val(p.scoped("", name).Val())
		return v
	}

	const firstNumeral, secondNumeral = 61231, 58473

	report := func(label string, code int, sgr bool, final byte) {
		a := newAI(c, p)
		a.peel, a.maxNodes = 64, 64
		st := a.newState()
		first, second := numOf(a.fresh(st, types.Typ[types.Byte], "first coordinate")), numOf(a.fresh(st, types.Typ[types.Byte], "second coordinate"))

		// the same numerals stand for the same symbolic numbers
		numeral := func(s string) (Lin, bool) {
			switch s {
			case fmt.Sprint(firstNumeral):
				return first, true
			case fmt.Sprint(secondNumeral):
				return second, true
			}

			return Lin{}, false
		}

		a.hooks.call = func(cc *CallCtx) (bool, []Outcome) {
			switch cc.name {
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
				s, ok := cc.args[0].(Str)
				if !ok {
					return false, nil
				}

				k, ok := s.constant()
				if !ok {
					return false, nil
				}

				if l, ok := numeral(k); ok {
					return cc.ret(Num{l}, Ifc{nil_: bddTrue})
				}
			}

			return false, nil
		}

		var input Val

		size := int64(6)
		numX, numY := first, second

		if sgr {
			s := fmt.Sprintf("\x1b[<%d;%d;%d%c", code, firstNumeral, secondNumeral, final)
			size = int64(len(s))
			input = st.newBytes(s + "\x1b[A")
		} else {
			vs := []Val{}
			for _, b := range []byte("\x1b[M") {
				vs = append(vs, Num{linC(int64(b))})
			}

			vs = append(vs, Num{linC(int64(code + 32))}, Num{first}, Num{second})

			for _, b := range []byte("\x1b[A") {
				vs = append(vs, Num{linC(int64(b))})
			}

			input = st.newSlice(types.Typ[types.Byte], vs)
			numX, numY = first.addConst(-32), second.addConst(-32)
		}

		low, shift, alt, ctrl, motion, wheel, more := code&3, code&4 != 0, code&8 != 0, code&16 != 0, code&32 != 0, code&64 != 0, code&128 != 0
		button, action := int64(-1), int64(-1)

		switch {
		case more && wheel:
		case more:
			button = konst("MouseButtonBackward") + int64(low)
		case wheel:
			button = konst("MouseButtonWheelUp") + int64(low)
		case low == 3:
			button = konst("MouseButtonNone")
		default:
			button = konst("MouseButtonLeft") + int64(low)
		}

		switch {
		case more && wheel:
		case wheel:
			action = konst("MouseActionPress")
		case motion:
			action = konst("MouseActionMotion")
		case sgr && final == 'm':
			action = konst("MouseActionRelease")
		case !more && low == 3:
			// an SGR report has no reason to press button three
			if !sgr {
				action = konst("MouseActionRelease")
			}
		default:
			action = konst("MouseActionPress")
		}

		outs := a.exec(fn, st, input, Boo{bddFalse})

		var why string

		check := func(rule string, ok func(st *State, f func(name string) Val) string) {
			why = ""

			for _, o := range outs {
				if o.panic {
					why = "it panics"
					break
				}

				i, isI := o.vals[1].(Ifc)
				if !isI || i.typ == nil || !types.Identical(i.typ, msgT) {
					why = "it is decoded to " + showVal(o.vals[1]) + " instead of a mouse event"
					break
				}

				t, isT := i.val.(Tup)
				if !isT {
					why = "the event could not be determined"
					break
				}

				if !o.st.provesEQ(numOf(o.vals[0]).addConst(-size)) {
					why = "its length is " + showVal(o.vals[0])
					break
				}

				if why = ok(o.st, func(name string) Val { return t.fs[fieldIdx(msgT, name)] }); why != "" {
					break
				}
			}

			if len(outs) == 0 {
				why = "nothing is returned"
			}

			c.want(why == "", rule, label, where, why)
		}

		is := func(st *State, v Val, want int64, what string) string {
			if want >= 0 && !st.provesEQ(numOf(v).addConst(-want)) {
				return fmt.Sprintf("its %s is %s instead of %d", what, showVal(v), want)
			}

			return ""
		}

		check("button of a mouse report", func(st *State, f func(string) Val) string { return is(st, f("Button"), button, "button") })
		check("action of a mouse report", func(st *State, f func(string) Val) string { return is(st, f("Action"), action, "action") })
		check("modifiers of a mouse report", func(st *State, f func(string) Val) string {
			for name, want := range map[string]bool{"Shift": shift, "Alt": alt, "Ctrl": ctrl} {
				if st.decide(bIff(boolOf(f(name)), bddConst(want))) != 1 {
					return fmt.Sprintf("%s is not %v", name, want)
				}
			}

			return ""
		})
		check("coordinates of a mouse report", func(st *State, f func(string) Val) string {
			for name, want := range map[string]Lin{"X": numX, "Y": numY} {
				got := numOf(f(name))

				// a number that the numeral was not recognized in is the numeral's
				if k, isC := got.isConst(); isC && sgr && k == map[string]int64{"X": firstNumeral, "Y": secondNumeral}[name]-1 {
					continue
				}

				if !st.provesEQ(got.sub(want.addConst(-1))) {
					return fmt.Sprintf("%s is %s instead of %s", name, got, want.addConst(-1))
				}
			}

			return ""
		})
		a.notesFail("undecided")
	}

	for code := 0; code < 256; code++ {
		report(fmt.Sprintf("SGR code %d, pressed", code), code, true, 'M')
		report(fmt.Sprintf("SGR code %d, released", code), code, true, 'm')

		if code+32 < 256 {
			report(fmt.Sprintf("X10 code %d", code), code, false, 0)
		}
	}

	c.atLeast("button of a mouse report", 700)
	c.assume("reports are read whole; numerals of SGR reports have the form of a decimal number")
}

// readLoopOf finds the function that reads from an input and decodes what it
// read: of the functions with a reader and a channel of messages, the one that
// calls the decoder (directly or by helpers).
func readLoopOf(p *Prog, decoder *ssa.Function) *ssa.Function {
	reach := map[*ssa.Function]bool{decoder: true}

	for changed := true; changed; {
		changed = false

		for _, fn := range p.all {
			if reach[fn] || fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkgPath("") {
				continue
			}

			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if ok && call.Common().StaticCallee() != nil && reach[call.Common().StaticCallee()] {
						reach[fn] = true
						changed = true
					}
				}
			}
		}
	}

	takes := func(fn *ssa.Function) bool {
		reader, channel := false, false

		for _, q := range fn.Params {
			reader = reader || q.Type().String() == "io.Reader"

			_, isChan := q.Type().Underlying().(*types.Chan)
			channel = channel || isChan
		}

		return reader && channel && fn.Parent() == nil
	}

	var found []*ssa.Function

	for _, fn := range p.all {
		if !reach[fn] || !takes(fn) {
			continue
		}

		// not one that leaves it to another
		leaves := false

		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g != fn && reach[g] && takes(g) {
						leaves = true
					}
				}
			}
		}

		if !leaves {
			found = append(found, fn)
		}
	}

	if len(found) != 1 {
		anchorf("%d functions read and decode the input", len(found))
	}

	return found[0]
}

// readLoop follows the loop that reads and decodes the input, for a number of
// reads and messages: what is decoded is always the part of the stream that
// follows what was decoded before.
func readLoop(c *Check, p *Prog, decoder *ssa.Function) {
	fn := readLoopOf(p, decoder)
	a := newAI(c, p)
	a.maxNodes, a.maxStates, a.peel, a.useSegs = 4096, 4096, 16, true

	turns, reading := 5, int64(3)
	if c.tier == "thorough" {
		turns, reading = 7, 5
	}

	st := a.newState()
	num := func(st *State, k string) Lin {
		n, ok := st.gv[k].(Num)
		if !ok {
			return linC(0)
		}

		return n.l
	}
	set := func(st *State, k string, l Lin) { st.setGV(k, Num{l}) }
	on := func(st *State, k string) bool { return st.gv[k] != nil }
	flag := func(st *State, k string, v bool) {
		if v {
			st.setGV(k, Num{linC(1)})
		} else {
			delete(st.gv, k)
		}
	}
	steps := 0

	a.hooks.call = func(cc *CallCtx) (bool, []Outcome) {
		st := cc.st

		if strings.HasPrefix(cc.name, "iface:") && strings.HasSuffix(cc.name, ".Read") {
			buf, ok := cc.args[len(cc.args)-1].(Slc)
			o := st.obj(buf.obj)

			if !ok || o == nil {
				c.fail("input is decoded in order", "buffer of Read", cc.pos(), "the buffer read into could not be determined")
				return true, nil
			}

			pos, end := num(st, "decoded"), num(st, "read")
			c.want(on(st, "short") || st.provesEQ(end.sub(pos)), "input is decoded before more is read", fname(cc.fr.fn)+" "+cc.pos(), cc.pos(), "bytes that were read may not have been decoded", cc.fr.path(p)...)
			c.want(!on(st, "pending"), "each message is delivered", fname(cc.fr.fn)+" "+cc.pos(), cc.pos(), "a message may not have been delivered", cc.fr.path(p)...)

			reads := num(st, "reads")
			if k, _ := reads.isConst(); k >= reading {
				return true, nil
			}

			set(st, "reads", reads.addConst(1))

			n := numOf(a.fresh(st, types.Typ[types.Int], freshName("n")))
			st.assume(bAnd(bGE(n), bGE(buf.len.sub(n))))

			size := buf.cap
			if !st.provesEQ(buf.off) {
				c.fail("input is decoded in order", "buffer of Read", cc.pos(), "input is read into the middle of a buffer")
				return true, nil
			}

			m := &Obj{typ: types.Typ[types.Byte], kind: 'a', term: freshName("read"), known: map[string]Val{}, kidx: map[string]Lin{}, size: size}
			m.segs = []seg{{"stream", end, n}, {freshName("rest"), linC(0), size.sub(n)}}
			st.heap[buf.obj] = m

			set(st, "read", end.add(n))
			set(st, "n", n)
			set(st, "size", buf.len)
			flag(st, "short", false)

			// what a failed read leads to is left to other checks
			return cc.ret(Num{n}, Ifc{nil_: bddTrue})
		}

		if cc.callee != decoder {
			return false, nil
		}

		at := fname(cc.fr.fn) + " " + cc.pos()
		b, ok := cc.args[0].(Slc)
		pos, end := num(st, "decoded"), num(st, "read")
		why := ""

		switch segs := st.joinSegs(st.segsOf(b)); {
		case !ok:
			why = "the bytes decoded could not be determined"
		case !st.proves(b.len.addConst(-1)):
			why = "there may be no byte to decode"
		case len(segs) != 1 || segs[0].base != "stream":
			why = "the bytes decoded may not be those that were read, in order"
		case !st.provesEQ(segs[0].off.sub(pos)):
			why = "the bytes decoded may not be those that follow the ones decoded before"
		case !st.provesEQ(segs[0].off.add(segs[0].len).sub(end)):
			why = "the bytes decoded may not be all that were read"
		case on(st, "short"):
			why = "bytes that need more input are decoded again before more is read"
		}

		c.want(why == "", "input is decoded in order", at, cc.pos(), why, cc.fr.path(p)...)
		c.want(!on(st, "pending"), "each message is delivered", at, cc.pos(), "a message may not have been delivered", cc.fr.path(p)...)

		filled := bGE(num(st, "n").sub(num(st, "size")))
		c.want(st.holds(bIff(boolOf(cc.args[1]), filled)), "more input is expected exactly if the read filled its buffer", at, cc.pos(), "the decoder may be told otherwise", cc.fr.path(p)...)

		k := num(st, "messages")
		if n, _ := k.isConst(); n >= int64(turns) || why != "" {
			return true, nil
		}

		steps++
		set(st, "messages", k.addConst(1))

		short := st.fork()
		flag(short, "short", true)

		w := numOf(a.fresh(st, types.Typ[types.Int], freshName("w")))
		st.assume(bAnd(bGE(w.addConst(-1)), bGE(b.len.sub(w))))
		set(st, "decoded", pos.add(w))

		msg := Ifc{nil_: bddFalse, term: freshName("message")}
		st.setGV("pending", msg)

		// the end of what was read, or before it
		rest := st.fork()

		var outs []Outcome

		if st.assume(bEQ(b.len.sub(w))) {
			outs = append(outs, Outcome{st: st, vals: []Val{Num{w}, msg}})
		}

		if rest.assume(bGE(b.len.sub(w).addConst(-1))) {
			outs = append(outs, Outcome{st: rest, vals: []Val{Num{w}, msg}})
		}

		return true, append(outs, Outcome{st: short, vals: []Val{Num{linC(0)}, Ifc{nil_: bddTrue}}})
	}

	deliver := func(st *State, v Val, at, pos string) {
		want := st.gv["pending"]
		c.want(want != nil && valEq(want, v), "each message is delivered", at, pos, "what is delivered may not be the message decoded last")
		delete(st.gv, "pending")
	}

	a.hooks.sel = func(fr *Frame, n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) {
		if s.States[k].Dir == types.SendOnly {
			deliver(n.st, send, fname(fr.fn)+" "+p.pos(instrPos(s)), p.pos(instrPos(s)))
			return nil, true
		}

		// the context is done
		return nil, false
	}
	a.hooks.send = func(fr *Frame, n *Node, ch, v Val, in ssa.Instruction) {
		deliver(n.st, v, fname(fr.fn)+" "+p.pos(instrPos(in)), p.pos(instrPos(in)))
	}

	var args []Val
	for i := range fn.Params {
		args = append(args, a.param(fn, st, i, fn.Params[i].Name()))
	}

	for _, o := range a.exec(fn, st, args...) {
		if o.panic && !o.st.infeasible() {
			c.fail("input is decoded in order", fname(fn), p.pos(fn.Pos()), "it may panic")
		}
	}

	c.want(steps > turns, "input is decoded in order", "reads followed", p.pos(fn.Pos()), "the loop could not be followed")
	a.notesFail("undecided")
}

// anyInput is the state the decoder starts in: any bytes, at least one.
func anyInput(c *Check, p *Prog, fn *ssa.Function) (*ai, *State, Slc, Val) {
	a := newAI(c, p)
	a.maxNodes, a.factLimit, a.joinCons = 64, 20000, 60

	st := a.newState()
	in := a.fresh(st, fn.Params[0].Type(), "input").(Slc)
	in.nil_, in.off = bddFalse, linC(0)
	st.assume(bGE(in.len.addConst(-1)))

	return a, st, in, a.param(fn, st, 1, "more")
}

// checkI03: a message shares no memory with anything that was there before it
// was decoded.
func checkI03(c *Check) {
	p := c.prog("linux")
	fn := decoderOf(p)

	a, st, in, more := anyInput(c, p, fn)
	before := nextObj

	var shared func(st *State, v Val, seen map[ObjID]bool) string

	var kept map[ObjID]bool // what package variables refer to afterwards

	var object func(st *State, id ObjID, seen map[ObjID]bool) string

	object = func(st *State, id ObjID, seen map[ObjID]bool) string {
		if kept[id] {
			return "memory that a package variable refers to"
		}

		if seen[id] {
			return ""
		}

		seen[id] = true
		o := st.obj(id)

		switch {
		case id == in.obj:
			return "the bytes it was decoded from"
		case id < before || a.lazyInfo[id] != nil:
			return "memory that was there before"
		case o == nil:
			return "unknown memory"
		case o.from != 0:
			if why := object(st, o.from, seen); why != "" {
				return why
			}
		}

		for _, v := range append(append([]Val{o.val}, o.elems...), o.keys...) {
			if why := shared(st, v, seen); why != "" {
				return why
			}
		}

		for _, v := range o.known {
			if why := shared(st, v, seen); why != "" {
				return why
			}
		}

		if !o.conc && o.kind != 'v' && hasPointers(o.typ, nil) {
			return "unknown memory"
		}

		return ""
	}

	shared = func(st *State, v Val, seen map[ObjID]bool) string {
		switch v := v.(type) {
		case Tup:
			for _, f := range v.fs {
				if why := shared(st, f, seen); why != "" {
					return why
				}
			}
		case Slc:
			if v.obj != 0 && v.nil_ != bddTrue && st.decide(v.nil_) != 1 && !st.provesEQ(v.len) {
				return object(st, v.obj, seen)
			}
		case Ptr:
			if v.obj != 0 && st.decide(v.nil_) != 1 {
				return object(st, v.obj, seen)
			}
		case Ref:
			if v.obj != 0 && st.decide(v.nil_) != 1 {
				return object(st, v.obj, seen)
			}
		case Ifc:
			if st.decide(v.nil_) == 1 {
				return ""
			}

			if v.typ == nil {
				return "something unknown"
			}

			return shared(st, v.val, seen)
		case Fun, Opq:
			return "something unknown"
		}

		return ""
	}

	check := func(rule, label string, outs []Outcome) {
		for _, o := range outs {
			if o.panic || o.st.infeasible() {
				continue
			}

			kept = a.reachGlobals(o.st)
			why := shared(o.st, o.vals[1], map[ObjID]bool{})
			if why != "" {
				why = "it refers to " + why
			}

			kind := "no message"
			if i, ok := o.vals[1].(Ifc); ok && i.typ != nil {
				kind = shortType(i.typ)
			}

			c.want(why == "", rule, label+kind, p.pos(fn.Pos()), why)
		}
	}

	check("message owns its memory", "any input: ", a.exec(fn, st, in, more))
	a.notesFail("undecided")

	// every sequence, with the entries of the tables
	for _, s := range sampleInputs() {
		a = newAI(c, p)
		a.peel, a.maxNodes = 64, 64
		st := a.newState()
		in = st.newBytes(s).(Slc)
		before = nextObj
		check("message owns its memory", fmt.Sprintf("%q: ", s), a.exec(fn, st, in, Boo{bddFalse}))
		a.notesFail("undecided")
	}

	c.atLeast("message owns its memory", 170)
}

// reachGlobals: the objects that package variables refer to in a state.
func (x *Interp) reachGlobals(st *State) map[ObjID]bool {
	seen := map[ObjID]bool{}

	var visit func(v Val)

	object := func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}

		seen[id] = true

		o := st.obj(id)
		if o == nil {
			return
		}

		if o.val != nil {
			visit(o.val)
		}

		for _, v := range o.elems {
			visit(v)
		}

		for _, v := range o.keys {
			visit(v)
		}

		for _, v := range o.known {
			visit(v)
		}
	}

	visit = func(v Val) {
		switch v := v.(type) {
		case Tup:
			for _, f := range v.fs {
				visit(f)
			}
		case Slc:
			object(v.obj)
		case Ptr:
			object(v.obj)
		case Ref:
			object(v.obj)
		case Ifc:
			if v.val != nil {
				visit(v.val)
			}
		}
	}

	for _, id := range x.globals {
		object(id)
	}

	return seen
}

// hasPointers: values of the type may refer to memory.
func hasPointers(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}

	if seen == nil {
		seen = map[types.Type]bool{}
	}

	seen[t] = true

	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type(), seen) {
				return true
			}
		}

		return false
	case *types.Array:
		return hasPointers(u.Elem(), seen)
	}

	return true
}

// checkI01 follows the decoder on any bytes and the loop that reads them.
func checkI01(c *Check) {
	p := c.prog("linux")
	fn := decoderOf(p)
	where := p.pos(fn.Pos())

	a, st, in, more := anyInput(c, p, fn)
	a.bounds("input is accessed within its bounds")

	for _, o := range a.exec(fn, st, in, more) {
		if o.st.infeasible() {
			continue
		}

		if o.panic {
			c.fail("decoding progresses", fname(fn), where, "it may panic")
			continue
		}

		n := numOf(o.vals[0])
		paste := bAnd(bGE(in.len.addConst(-6)), a.bytesAre(o.st, byteSrc{o.st.byteElem(in), linC(6)}, "\x1b[200~"))
		ok := bAnd(bAnd(bGE(n), bGE(in.len.sub(n))), bOr(bGE(n.addConst(-1)), bOr(boolOf(more), paste)))
		c.want(o.st.holds(ok), "decoding progresses", fname(fn), where, "the number of bytes consumed is "+n.String()+", which may be none or too many")
	}

	a.notesFail("undecided")
	readLoop(c, p, fn)

	// a paste that is complete is consumed
	for _, s := range []string{"\x1b[200~\x1b[201~", "\x1b[200~a\x1b[201~", "\x1b[200~\x1b[201~\x1b[A", "\x1b[200~\x1b[200~\x1b[201~"} {
		for _, more := range []bool{false, true} {
			a := newAI(c, p)
			a.peel, a.maxNodes = 64, 64
			st := a.newState()

			for _, o := range a.exec(fn, st, st.newBytes(s), Boo{bddConst(more)}) {
				c.want(!o.panic && o.st.proves(numOf(o.vals[0]).addConst(-1)), "a complete paste is consumed", fmt.Sprintf("%q, more: %v", s, more), where, "nothing of it is consumed")
			}

			a.notesFail("undecided")
		}
	}

	c.atLeast("a complete paste is consumed", 8)
	c.atLeast("decoding progresses", 1)
	c.atLeast("input is accessed within its bounds", 5)
}

var _ *ssa.Function
