package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W01", checkW01)
}

// painter follows code that draws into a buffer. What buffers, and functions
// that draw into an area of their own, do is taken from what they promise:
// each of them is decided separately.
type painter struct {
	*builder
	g          *graphemes
	ptr        Ptr   // the buffer
	bounds     rectL // its area
	area       rectL // what may be drawn in
	fn         *ssa.Function
	rule       string
	name       string
	narrow     bool // strings are not wider than one column
	opaque     bool // functions that do not draw are not followed
	seen       []painted
	cell       ObjID
	rows       map[string]func(i Lin) Val // lists of rows and columns
	chosen     []choice
	counted    int64 // states are kept apart by the numbers below that are known in them
	everywhere bool  // also in functions that draw
	bare       bool  // nothing is drawn around the widget
	cut        bool  // the chosen way is not possible
}

// choice is one of the ways something can be, for all of a run. Each way is
// followed in a run of its own.
type choice struct {
	key  string
	n, i int
}

// choose is the way that is followed in this run.
func (b *painter) choose(key string, n int) int {
	for _, c := range b.chosen {
		if c.key == key {
			return c.i
		}
	}

	b.chosen = append(b.chosen, choice{key, n, 0})

	return 0
}

// nextChoices are those of the next run.
func nextChoices(cs []choice) []choice {
	cs = append([]choice(nil), cs...)

	for len(cs) > 0 {
		last := &cs[len(cs)-1]
		if last.i++; last.i < last.n {
			return cs
		}

		cs = cs[:len(cs)-1]
	}

	return nil
}

const (
	areaRule  = "drawn inside the area"
	innerRule = "inner area inside the area"
)

func newPainter(c *Check, p *Prog, dir, name string, fn *ssa.Function, what string) *painter {
	b := &painter{builder: newBuilder(c, p, dir, name), fn: fn, rule: areaRule, name: what, rows: map[string]func(Lin) Val{}}
	b.g = &graphemes{x: b.Interp, widths: map[string]int64{}}
	b.hooks.call = b.call
	b.hooks.elem = func(st *State, o *Obj, i Lin, v Val) Val {
		if f := b.rows[o.term]; f != nil {
			return f(i)
		}

		return nil
	}
	b.maxNodes, b.usePos, b.splitMax, b.joinMore = 16, true, true, true
	b.partition = b.emptiness

	return b
}

// painted is an obligation: something is drawn, or not at all.
type painted struct {
	ok             bool
	construct, pos string
	why            string
	path           []string
}

// setup makes the buffer and the area, in one of the ways they are related.
func (b *painter) setup(st *State, kind string, sub subject) Val {
	b.ptr, b.bounds, _ = b.newBuffer(st, "buffer")
	b.cell = st.newVar(b.builder.cell, b.fresh(st, b.builder.cell, "cell"), "cell")

	v := b.fresh(st, b.rectType(), "area")

	if sub.sized {
		v = b.fixedRect(st, "area", sub.w, sub.h)

		switch {
		case sub.w == 0:
			kind = "no column"
		case sub.h == 0:
			kind = "no row"
		}
	}

	b.area = b.rectOf(st, v)
	r := b.area

	st.addCons(b.bounds.x)
	st.addCons(b.bounds.y)

	switch kind {
	case "":
		st.addCons(r.w.addConst(-1))
		st.addCons(r.h.addConst(-1))
		st.addCons(r.x.sub(b.bounds.x))
		st.addCons(r.y.sub(b.bounds.y))
		st.addCons(b.bounds.right().sub(r.right()))
		st.addCons(b.bounds.bottom().sub(r.bottom()))
		// the buffer is not empty then
		st.addCons(b.bounds.w.addConst(-1))
		st.addCons(b.bounds.h.addConst(-1))
	case "no column":
		st.addCons(r.w.neg())
		st.addCons(r.w)
		st.addCons(r.h)
	case "no row":
		st.addCons(r.h.neg())
		st.addCons(r.h)
		st.addCons(r.w.addConst(-1))
	}

	return v
}

var areaKinds = []string{"", "no column", "no row"}

func (b *painter) isBuffer(v Val) bool {
	q, ok := v.(Ptr)
	return ok && q.obj == b.ptr.obj && q.path == ""
}

// within says that a rectangle is empty, or in another.
func rectWithin(st *State, in, r rectL) bool {
	sizes := st.proves(in.w) && st.proves(in.h)
	ok := st.implies([]*bdd{bGE(in.w.addConst(-1)), bGE(in.h.addConst(-1))}, []*bdd{
		bGE(in.x.sub(r.x)), bGE(in.y.sub(r.y)), bGE(r.right().sub(in.right())), bGE(r.bottom().sub(in.bottom())),
		bGE(r.w.addConst(-1)), bGE(r.h.addConst(-1))})

	return sizes && ok
}

func (b *painter) want(c *CallCtx, ok bool, what, why string) {
	if b.quiet > 0 {
		return
	}

	if !ok && c.st.infeasible() {
		ok = true
	}

	if !ok && os.Getenv("DBGAREA") == "2" {
		fmt.Println(why, facts(c.st))
	}

	construct := fname(b.fn) + ": " + what + " in " + fname(c.fr.fn)
	if b.name != "" {
		construct += " (" + b.name + ")"
	}

	b.seen = append(b.seen, painted{ok, construct, c.pos(), why, c.fr.path(b.p)})
}

// draws decides whether a function is one of those checked by themselves: it
// is exported and draws into an area of a buffer.
func draws(sig *types.Signature, rect, buf types.Type) (area, buffer int) {
	area, buffer = -1, -1

	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()

		switch {
		case types.Identical(t, rect) && area < 0:
			area = i
		case isPtr(t) && types.Identical(deref(t), buf) && buffer < 0:
			buffer = i
		}
	}

	if area < 0 || buffer < 0 {
		return -1, -1
	}

	return area, buffer
}

// prints decides whether a function draws at a column and row of a buffer, up
// to a width: their positions in its parameters.
func prints(sig *types.Signature, buf types.Type) (buffer, x int) {
	ps := sig.Params()
	if ps.Len() != 4 || sig.Results().Len() != 2 {
		return -1, -1
	}

	if t := ps.At(0).Type(); !isPtr(t) || !types.Identical(deref(t), buf) {
		return -1, -1
	}

	for i := 1; i < 4; i++ {
		if !isPlainInt(ps.At(i).Type()) {
			return -1, -1
		}
	}

	return 0, 1
}

func (b *painter) call(c *CallCtx) (bool, []Outcome) {
	st := c.st

	if done, outs := b.g.call(c); done {
		return true, outs
	}

	sig := c.sig
	if c.callee != nil {
		sig = c.callee.Signature
	}

	if sig == nil {
		return false, nil
	}

	recv := 0
	if sig.Recv() != nil || strings.HasPrefix(c.name, "iface:") {
		recv = 1
	}

	name := c.name
	if c.callee != nil {
		name = fname(c.callee)
	}

	short := name[strings.LastIndex(name, ".")+1:]
	exported := short != "" && short[0] >= 'A' && short[0] <= 'Z'

	var self types.Type
	if sig.Recv() != nil {
		self = deref(sig.Recv().Type())
	}

	// the cells
	if self != nil && types.Identical(self, b.builder.cell) {
		if q, ok := c.args[0].(Ptr); ok && q.obj == b.cell {
			if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), sig.Recv().Type()) {
				return c.ret(c.args[0])
			}

			return false, nil
		}
	}

	// the buffer
	if self != nil && types.Identical(self, b.buf) && b.isBuffer(c.args[0]) && c.callee != b.fn {
		switch short {
		case "Area":
			return c.ret(st.at(c.args[0]).(Tup).fs[b.areaIdx])
		case "CellAt":
			x, y := b.posL(c.args[1])
			ok := true

			for _, cond := range b.area.insideAll(x, y) {
				ok = ok && st.holds(cond)
			}

			b.want(c, ok, "the cell that is drawn", "the position "+x.String()+", "+y.String()+" may be outside of the area")

			return c.ret(Ptr{obj: b.cell, nil_: bddFalse})
		case "SetStyle":
			r := b.rectOf(st, c.args[1])
			b.want(c, rectWithin(st, r, b.area), "the area that is styled", "the area at "+r.x.String()+", "+r.y.String()+" of "+r.w.String()+" by "+r.h.String()+" may be partly outside")

			return c.ret()
		case "SetString", "SetStringN":
			limit := linC(math.MaxInt64)

			var text Val

			for _, a := range c.args[3:] {
				switch a := a.(type) {
				case Num:
					limit = a.l
				case Str:
					text = a
				}
			}

			ws := symOf(freshName("width"))
			syms[ws].lo = i64(0)
			w := linS(ws)

			if s, ok := text.(Str); ok {
				w = b.g.width(st, s)
			}

			return b.printed(c, "the text that is drawn", numOf(c.args[1]), numOf(c.args[2]), limit, &w, sig.Results().Len())
		}
	}

	// what draws into an area
	if ai, bi := draws(sig, b.rectType(), b.buf); ai >= 0 && exported && c.callee != b.fn && b.isBuffer(c.args[recv+bi]) && sig.Results().Len() == 0 {
		r := b.rectOf(st, c.args[recv+ai])
		b.want(c, rectWithin(st, r, b.area), "the area of "+name, "the area at "+r.x.String()+", "+r.y.String()+" of "+r.w.String()+" by "+r.h.String()+" may be partly outside")

		return c.ret()
	}

	if bi, xi := prints(sig, b.buf); bi >= 0 && exported && c.callee != b.fn && b.isBuffer(c.args[recv+bi]) {
		k := recv + xi
		return b.printed(c, "the text of "+name, numOf(c.args[k]), numOf(c.args[k+1]), numOf(c.args[k+2]), nil, 2)
	}

	// areas made from others
	if c.callee == nil || c.callee == b.fn {
		return false, nil
	}

	rect := b.rectType()

	switch {
	case self != nil && types.Identical(self, rect) && (short == "Rows" || short == "Columns"):
		r := b.rectOf(st, c.args[0])

		n := r.h
		if short == "Columns" {
			n = r.w
		}

		if _, known := n.isConst(); known || !st.proves(n) {
			return false, nil
		}

		term := freshName("slices of an area")
		whole := c.args[0]
		b.rows[term] = func(i Lin) Val {
			if short == "Rows" {
				return b.resized(b.movedRect(whole, r.x, r.y.add(i)), r.w, linC(1))
			}

			return b.resized(b.movedRect(whole, r.x.add(i), r.y), linC(1), r.h)
		}

		id := st.newObj(&Obj{typ: rect, kind: 'a', term: term, size: n, known: map[string]Val{}, kidx: map[string]Lin{}})

		return c.ret(Slc{obj: id, len: n, cap: n, off: linC(0), nil_: bEQ(n)})

	case self != nil && short == "Inner" && exported && !types.Identical(self, rect) && sig.Params().Len() == 1 &&
		types.Identical(sig.Params().At(0).Type(), rect) && sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), rect):
		var outs []Outcome

		b.part(c, c.args[1], func(st *State, v Val) { outs = append(outs, Outcome{st: st, vals: []Val{v}}) })

		return true, outs

	case self != nil && types.Identical(self, b.p.named("", "Layout")) && short == "Split":
		if cs := b.listOf(st, c.args[0], self, b.p.named("", "Constraint")); cs == 1 {
			var outs []Outcome

			b.part(c, c.args[1], func(st *State, v Val) {
				outs = append(outs, Outcome{st: st, vals: []Val{st.newSlice(rect, []Val{v})}})
			})

			return true, outs
		}

		return false, nil
	}

	// measures of text
	if self != nil && sig.Params().Len() == 0 && sig.Results().Len() > 0 && exported && b.measures(self) {
		ints := true
		for i := 0; i < sig.Results().Len(); i++ {
			ints = ints && isPlainInt(sig.Results().At(i).Type())
		}

		if ints && plainMeasure(c.callee) {
			return false, nil
		}

		if ints && !(len(c.fr.path(b.p)) == 1 && c.fr.fn == b.fn && c.callee == b.fn) {
			var out []Val

			for i := 0; i < sig.Results().Len(); i++ {
				s := symOf(fmt.Sprintf("%s%d(%s)", short, i, valKey(st.at(c.args[0]))))
				syms[s].lo = i64(0)
				out = append(out, Num{linS(s)})
			}

			return c.ret(out...)
		}
	}

	// text made by other packages
	own := b.fn.Pkg
	if c.callee.Pkg != nil && c.callee.Pkg != own && exported && b.p.inRepo(c.callee) && b.makesText(sig) {
		var out []Val

		for i := 0; i < sig.Results().Len(); i++ {
			v := b.fresh(st, sig.Results().At(i).Type(), freshName(short))
			b.sane(st, v, sig.Results().At(i).Type())
			out = append(out, v)
		}

		return c.ret(out...)
	}

	if b.opaque && c.callee.Pkg == own && !exported && b.silent(c.callee) {
		for _, a := range c.args {
			if q, ok := a.(Ptr); ok && q.obj != 0 {
				st.havocObj(q.obj)
			}
		}

		var out []Val

		for i := 0; i < sig.Results().Len(); i++ {
			out = append(out, b.fresh(st, sig.Results().At(i).Type(), freshName(short)))
		}

		return c.ret(out...)
	}

	return false, nil
}

// silent says that a function is given nothing to draw in, and gives no area.
func (b *painter) silent(fn *ssa.Function) bool {
	plain := func(t types.Type) bool {
		if isPtr(t) && types.Identical(deref(t), b.rectType()) || types.Identical(deref(t), b.buf) {
			return false
		}

		switch u := t.Underlying().(type) {
		case *types.Signature, *types.Interface, *types.Map, *types.Chan:
			return false
		case *types.Slice:
			_, isPtr := u.Elem().Underlying().(*types.Pointer)
			return !isPtr
		}

		return true
	}

	for _, pr := range fn.Params {
		if !plain(pr.Type()) {
			return false
		}
	}

	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = deref(sl.Elem())
		}

		if !plain(t) || types.Identical(t, b.rectType()) {
			return false
		}
	}

	return len(fn.FreeVars) == 0
}

// listOf is the length of the first list of a type in a struct, -1 if it is
// not known.
func (b *painter) listOf(st *State, v Val, t, elem types.Type) int {
	tup, ok := st.at(v).(Tup)
	u, isStruct := t.Underlying().(*types.Struct)

	if !ok || !isStruct {
		return -1
	}

	for i := 0; i < u.NumFields(); i++ {
		sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
		if !ok || !types.Identical(sl.Elem(), elem) {
			continue
		}

		if s, ok := tup.fs[i].(Slc); ok {
			if n, ok := s.len.isConst(); ok {
				return int(n)
			}
		}
	}

	return -1
}

// measures says that the methods of a type without arguments that give numbers
// measure text.
func (b *painter) measures(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}

	path := n.Obj().Pkg().Path()

	return strings.Contains(path, "/widget/") || strings.Contains(path, "/grapheme")
}

// makesText says that a function neither draws nor makes areas.
func (b *painter) makesText(sig *types.Signature) bool {
	if sig.Results().Len() == 0 {
		return false
	}

	all := []*types.Tuple{sig.Params(), sig.Results()}
	for _, l := range all {
		for i := 0; i < l.Len(); i++ {
			t := deref(l.At(i).Type())
			if types.Identical(t, b.rectType()) || types.Identical(t, b.buf) {
				return false
			}
		}
	}

	in := func(t types.Type) bool {
		for {
			switch u := t.(type) {
			case *types.Pointer:
				t = u.Elem()
				continue
			case *types.Slice:
				t = u.Elem()
				continue
			case *types.Named:
				if u.Obj().Pkg() == nil {
					return false
				}

				path := u.Obj().Pkg().Path()

				return strings.Contains(path, "/widget/") || strings.Contains(path, "/reflow") || strings.Contains(path, "/grapheme")
			}

			return false
		}
	}

	if sig.Recv() != nil {
		return in(sig.Recv().Type())
	}

	for i := 0; i < sig.Results().Len(); i++ {
		if in(sig.Results().At(i).Type()) {
			return true
		}
	}

	return false
}

// plainMeasure decides whether a function computes a number from the lengths of
// slices alone, without deciding anything, possibly by a method of what is
// embedded.
func plainMeasure(f *ssa.Function) bool {
	if len(f.Blocks) != 1 {
		return false
	}

	measures := false

	for _, in := range f.Blocks[0].Instrs {
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			continue
		}

		if bi, ok := call.Common().Value.(*ssa.Builtin); ok {
			measures = measures || bi.Name() == "len"
			continue
		}

		if g := call.Common().StaticCallee(); g == nil || g == f || f.Synthetic == "" || !plainMeasure(g) {
			return false
		}

		measures = true
	}

	return measures
}

// printed is text drawn at a position, up to a limit.
func (b *painter) printed(c *CallCtx, what string, x, y, limit Lin, width *Lin, results int) (bool, []Outcome) {
	st := c.st
	r := b.area
	end := bOr(bGE(r.right().sub(x).sub(limit)), bGE(r.right().sub(b.bounds.right())))
	premises := []*bdd{bGE(limit.addConst(-1)), bGE(b.bounds.right().sub(x).addConst(-1))}

	if width != nil {
		w := *width
		if b.narrow {
			end = bOr(end, bGE(r.right().sub(x).addConst(-1)))
		} else {
			end = bOr(end, bGE(r.right().sub(x).sub(w)))
		}

		premises = append(premises, bGE(w.addConst(-1)))
	}

	ok := st.implies(premises, []*bdd{bGE(x.sub(r.x)), bGE(y.sub(r.y)), bGE(r.bottom().sub(y).addConst(-1)), end})
	b.want(c, ok, what, "text at "+x.String()+", "+y.String()+" of at most "+limit.String()+" columns may be partly outside of the area")

	if results == 0 {
		return c.ret()
	}

	nx := linS(symOf(freshName("column")))
	st.addCons(nx.sub(x))

	if _, isMax := limit.isConst(); !isMax {
		if st.proves(limit) {
			st.addCons(x.add(limit).sub(nx))
		} else {
			st.assume(bOr(bEQ(nx.sub(x)), bGE(x.add(limit).sub(nx))))
		}
	}

	return c.ret(Num{nx}, Num{y})
}

// part is some area inside of another, or an empty one.
func (b *painter) part(c *CallCtx, of Val, do func(st *State, v Val)) {
	st := c.st
	o := b.rectOf(st, of)
	way, ways := -1, -1

	// always the same way, unless it is called repeatedly
	if !b.repeated(c) {
		way = b.choose("part "+c.pos()+" "+strings.Join(c.fr.path(b.p), " "), 3)
	}
	v := b.fresh(st, b.rectType(), freshName("part"))
	r := b.rectOf(st, v)

	try := func(conds ...Lin) {
		if ways++; way >= 0 && ways != way {
			return
		}

		s := st.fork()
		for _, l := range append(conds, o.w.sub(r.w), o.h.sub(r.h)) {
			s.addCons(l)
		}

		if !infeasible(s.cons) {
			do(s, v)
		} else if way >= 0 {
			b.cut = true
		}
	}

	try(r.w.addConst(-1), r.h.addConst(-1), r.x.sub(o.x), r.y.sub(o.y), o.right().sub(r.right()), o.bottom().sub(r.bottom()))
	try(r.w, r.w.neg(), r.h)
	try(r.w.addConst(-1), r.h, r.h.neg())
}

func (a *ai) resized(v Val, w, h Lin) Val {
	t := a.rectType()
	fs := append([]Val(nil), v.(Tup).fs...)
	fs[fieldIdx(t, "Width")], fs[fieldIdx(t, "Height")] = Num{w}, Num{h}

	return Tup{fs}
}

// widget is any value of the type of a widget.
func (b *painter) widget(st *State, t types.Type) Val {
	v := b.fresh(st, t, "widget")
	b.sane(st, v, t)

	tup, ok := v.(Tup)
	u, isStruct := t.Underlying().(*types.Struct)

	if !ok || !isStruct {
		return v
	}

	fs := append([]Val(nil), tup.fs...)

	for i := range fs {
		// what is drawn around it is there, or not
		q, ok := fs[i].(Ptr)
		if !ok || !types.Identical(u.Field(i).Type(), types.NewPointer(b.p.named(blockDir, "Block"))) {
			continue
		}

		if b.bare || b.choose("no "+u.Field(i).Name(), 2) == 1 {
			fs[i] = Ptr{nil_: bddTrue}
		} else if q.obj != 0 {
			st.assume(bNot(q.nil_))
			q.nil_ = bddFalse
			fs[i] = q
		}
	}

	return Tup{fs}
}

// sane assumes what holds for every value a program makes: numbers that select
// among the constants of their type do select one, sizes are not negative.
func (b *painter) sane(st *State, v Val, t types.Type) {
	pad, pos := b.p.named("", "Padding"), b.p.named("", "Position")

	switch u := t.Underlying().(type) {
	case *types.Struct:
		tup, ok := v.(Tup)
		if !ok {
			return
		}

		for i := 0; i < u.NumFields(); i++ {
			if n, ok := tup.fs[i].(Num); ok && (types.Identical(t, pad) || types.Identical(t, pos)) {
				st.assume(bGE(n.l))
			}

			// a measure that is kept
			if n, ok := tup.fs[i].(Num); ok && isPlainInt(u.Field(i).Type()) && b.measures(t) {
				st.assume(bGE(n.l))
			}

			if n, ok := tup.fs[i].(Num); ok && isPlainInt(u.Field(i).Type()) && strings.Contains(typePath(t), "/reflow") {
				st.assume(bGE(n.l))
			}

			b.sane(st, tup.fs[i], u.Field(i).Type())

			// composed lines have the alignment of the lines they are made of
			if n, ok := tup.fs[i].(Num); ok && strings.Contains(typePath(t), "/reflow") && types.Identical(u.Field(i).Type(), b.p.named("", "Alignment")) {
				for _, k := range b.p.constsOf(b.p.named("", "Alignment")) {
					if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok && k.Name() == "AlignmentNone" {
						st.assume(bNot(bEQ(n.l.addConst(-v))))
					}
				}
			}
		}
	case *types.Basic:
		n, ok := v.(Num)
		if !ok || u.Info()&types.IsInteger == 0 {
			return
		}

		named, ok := t.(*types.Named)
		if !ok || !isRepoType(named) {
			return
		}

		lo, hi, count := b.constRange(named)
		if count > 1 && hi-lo == int64(count-1) {
			st.assume(bAnd(bGE(n.l.addConst(-lo)), bGE(n.l.addConst(-hi).neg())))
		}
	}
}

func typePath(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}

	return ""
}

func (b *painter) constRange(t *types.Named) (lo, hi int64, n int) {
	for _, k := range b.p.constsOf(t) {
		v, ok := constant.Int64Val(constant.ToInt(k.Val()))
		if !ok {
			return 0, 0, 0
		}

		if n == 0 || v < lo {
			lo = v
		}

		if n == 0 || v > hi {
			hi = v
		}

		n++
	}

	return lo, hi, n
}

// subject is a way a receiver and further arguments are made.
type subject struct {
	name  string
	make  func(b *painter, st *State) (*State, Val, []Val)
	sized bool // the size of the area is chosen by it
	w, h  int64
	exact bool // nothing it is made of is left out
}

// painters lists the functions that draw into an area, or at a position.
func painters(p *Prog) []*ssa.Function {
	var out []*ssa.Function

	rect, buf := types.Type(p.named("", "Rect")), types.Type(p.named("", "Buffer"))

	for path, sp := range p.spkgs {
		if !isRepoPath(path) || sp.Pkg.Name() == "main" {
			continue
		}

		scope := sp.Pkg.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}

			named, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(named) || types.Identical(named, buf) {
				continue
			}

			for _, fn := range p.exportedMethods(named) {
				a, _ := draws(fn.Signature, rect, buf)
				pr, _ := prints(fn.Signature, buf)

				if a >= 0 && fn.Signature.Results().Len() == 0 || pr >= 0 {
					out = append(out, fn)
				}
			}
		}
	}

	sort.Slice(out, func(i, k int) bool { return fname(out[i]) < fname(out[k]) })

	return out
}

func checkW01(c *Check) {
	p := c.prog("linux")
	rect, buf := types.Type(p.named("", "Rect")), types.Type(p.named("", "Buffer"))
	start, fine := time.Now(), true

	for _, fn := range painters(p) {
		if only := os.Getenv("ONLY"); only != "" && !strings.Contains(fname(fn), only) {
			continue
		}

		if area, _ := draws(fn.Signature, rect, buf); area >= 0 {
			fine = c.drawsInside(p, fn) && fine
		} else {
			fine = c.printsInside(p, fn) && fine
		}

		if !fine && time.Since(start) > 8*time.Minute {
			c.note("left out", "the functions after "+fname(fn))
			return
		}
	}

	c.assume("buffers do not start at negative positions, and the area a widget is given is inside of the buffer or empty")
	c.assume("the parts Layout.Split makes of an area are inside of it, or empty")
	c.assume("symbols of scrollbars are at most one column wide")
	c.assume("values of types with named constants are one of these, paddings and scroll positions are not negative")
	c.atLeast(areaRule, 12)

	for _, fn := range inners(p) {
		// where the inner area of a block is, is decided exactly elsewhere
		if types.Identical(deref(recvType(fn)), p.named(blockDir, "Block")) {
			continue
		}

		if only := os.Getenv("ONLY"); only == "" || strings.Contains(fname(fn), only) {
			c.innerInside(p, fn)
		}
	}

	c.atLeast(innerRule, 6)
}

func (c *Check) drawsInside(p *Prog, fn *ssa.Function) bool {
	for _, s := range c.subjects(p, fn) {
		for _, kind := range areaKinds {
			if s.sized && kind != "" {
				continue
			}

			what := s.name
			if kind != "" {
				if what != "" {
					what += ", "
				}

				what += "an area of " + kind
			}

			fine := c.paints(p, fn, what, s.exact, func(b *painter) (*State, []Val) {
				st := b.newState()
				area := b.setup(st, kind, s)
				st, v, more := s.make(b, st)
				recv, _ := b.recv(fn, st, v)
				args := []Val{recv}

				for i := 0; i < fn.Signature.Params().Len(); i++ {
					t := fn.Signature.Params().At(i).Type()

					switch {
					case types.Identical(t, b.rectType()):
						args = append(args, area)
					case isPtr(t) && types.Identical(deref(t), b.buf):
						args = append(args, b.ptr)
					case len(more) > 0:
						args = append(args, more[0])
						more = more[1:]
					default:
						v := b.fresh(st, t, fn.Signature.Params().At(i).Name())
						b.sane(st, v, t)
						args = append(args, v)
					}
				}

				return st, args
			}, nil)

			// further cases would only say it again
			if !fine {
				return false
			}
		}
	}

	return true
}

// paints decides that a function draws within the area of the painter. It is
// tried in ways that follow more and more of what the function does.
func (c *Check) paints(p *Prog, fn *ssa.Function, what string, exact bool, setup func(b *painter) (*State, []Val), also func(b *painter, o Outcome) string) (fine bool) {
	fine = true
	dir, name := "", "Buffer"
	if named, ok := deref(recvType(fn)).(*types.Named); ok {
		dir, name = strings.TrimPrefix(strings.TrimPrefix(typePath(named), modPath), "/"), named.Obj().Name()
	}

	var obs []painted

	try := func(b *painter) (fine bool) {
		b.seen = nil
		returns := fname(fn) + ": it returns"

		if what != "" {
			returns += " (" + what + ")"
		}

		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("DBGAREA") == "3" {
					panic(r)
				}

				if _, ok := r.(anchorError); ok {
					panic(r)
				}

				b.seen = append(b.seen, painted{false, returns, p.pos(fn.Pos()), fmt.Sprint("undecided: ", r), nil})
				fine = false
			}

			obs = b.seen
		}()

		st, args := setup(b)
		outs := b.exec(fn, st, args...)
		ret := painted{len(outs) > 0 || b.cut, returns, p.pos(fn.Pos()), "undecided: no outcome", nil}

		for _, o := range outs {
			why := ""

			switch {
			case o.panic && !o.st.infeasible():
				why = "it may panic"
			case !o.panic && also != nil:
				why = also(b, o)
			}

			if why != "" {
				ret.ok, ret.why = false, why
			}
		}

		b.seen = append(b.seen, ret)

		for _, n := range inOrder(b.notes) {
			b.seen = append(b.seen, painted{false, returns, p.pos(fn.Pos()), "the interpreter could not follow: " + n, nil})
		}

		for _, o := range b.seen {
			if !o.ok {
				return false
			}
		}

		return true
	}

	var run []choice

	for {
		for i := 0; i < 3; i++ {
			if exact && i < 1 {
				continue
			}

			b := newPainter(c, p, dir, name, fn, what)
			b.opaque, b.coarse = i == 0, i == 0
			b.chosen = append([]choice(nil), run...)

			if i == 2 && !exact {
				b.peel = 1
			}

			if exact {
				b.maxNodes, b.counted, b.everywhere = 64, 3, i == 2
			}

			start := time.Now()
			b.deadline = start.Add(150 * time.Second)
			ok := try(b)

			if os.Getenv("DBGAREA") != "" {
				fmt.Println("attempt", i, fname(fn), what, ok, time.Since(start).Round(time.Millisecond), b.chosen)

				for _, o := range obs {
					if !o.ok {
						fmt.Println("   ", o.construct, o.pos, o.why)
					}
				}
			}

			if ok || i == 2 {
				run = b.chosen
				break
			}
		}

		for _, o := range obs {
			c.want(o.ok, areaRule, o.construct, o.pos, o.why, o.path...)
			fine = fine && o.ok
		}

		// one way is enough
		if !fine {
			return false
		}

		if run = nextChoices(run); run == nil {
			return true
		}
	}
}

// repeated says that a call may happen more than once.
func (b *painter) repeated(c *CallCtx) bool {
	if c.instr == nil || inCycle(c.instr.Block()) {
		return true
	}

	for fr := c.fr; fr != nil && fr.fn != b.fn; fr = fr.parent {
		if fr.site == nil || inCycle(fr.site.Block()) {
			return true
		}
	}

	return false
}

// inners lists the methods that give what is left of an area.
func inners(p *Prog) []*ssa.Function {
	var out []*ssa.Function

	rect := types.Type(p.named("", "Rect"))

	for path, sp := range p.spkgs {
		if !isRepoPath(path) || sp.Pkg.Name() == "main" {
			continue
		}

		scope := sp.Pkg.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) || types.Identical(tn.Type(), rect) {
				continue
			}

			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}

			for _, fn := range p.exportedMethods(named) {
				s := fn.Signature
				if fn.Name() == "Inner" && s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), rect) && types.Identical(s.Results().At(0).Type(), rect) {
					out = append(out, fn)
				}
			}
		}
	}

	sort.Slice(out, func(i, k int) bool { return fname(out[i]) < fname(out[k]) })

	return out
}

// innerInside decides that an inner area is inside the area it is made from,
// or empty.
func (c *Check) innerInside(p *Prog, fn *ssa.Function) {
	t := deref(recvType(fn))

	for _, kind := range areaKinds {
		what := ""
		if kind != "" {
			what = "an area of " + kind
		}

		ok := c.paints(p, fn, what, false, func(b *painter) (*State, []Val) {
			st := b.newState()
			area := b.setup(st, kind, subject{})
			recv, _ := b.recv(fn, st, b.widget(st, t))

			return st, []Val{recv, area}
		}, func(b *painter, o Outcome) string {
			r := b.rectOf(o.st, o.vals[0])
			if !rectWithin(o.st, r, b.area) {
				return "the area at " + r.x.String() + ", " + r.y.String() + " of " + r.w.String() + " by " + r.h.String() + " may be partly outside"
			}

			return ""
		})

		c.want(ok, innerRule, fname(fn)+": "+kind, p.pos(fn.Pos()), "see above")
	}
}

// printsInside decides that a function that draws at a position stays in the
// row, in the columns that it may take.
func (c *Check) printsInside(p *Prog, fn *ssa.Function) bool {
	t := deref(recvType(fn))

	for _, kind := range []string{"columns to draw in", "a negative number of columns"} {
		var x, y, most Lin

		fine := c.paints(p, fn, kind, false, func(b *painter) (*State, []Val) {
			st := b.newState()
			b.setup(st, "", subject{})

			for i, s := range []*Lin{&x, &y, &most} {
				*s = linS(symOf([]string{"x", "y", "most"}[i]))
			}

			width := most
			if kind == "columns to draw in" {
				st.addCons(most)
			} else {
				st.addCons(most.addConst(1).neg())
				width = linC(0)
			}

			st.addCons(x.sub(b.bounds.x))
			st.addCons(y.sub(b.bounds.y))
			st.addCons(b.bounds.bottom().sub(y).addConst(-1))
			b.area = rectL{x: x, y: y, w: width, h: linC(1)}

			recv, _ := b.recv(fn, st, b.widget(st, t))

			return st, []Val{recv, b.ptr, Num{x}, Num{y}, Num{most}}
		}, func(b *painter, o Outcome) string {
			if len(o.vals) != 2 {
				return "it does not return where it ended"
			}

			nx, ny := numOf(o.vals[0]), numOf(o.vals[1])

			switch {
			case !o.st.proves(nx.sub(x)):
				return "it may end before the column it began at"
			case !o.st.proves(b.area.right().sub(nx)):
				return "it may end beyond the columns it was given"
			case !o.st.provesEQ(ny.sub(y)):
				return "it may end in another row"
			}

			return ""
		})

		if !fine {
			return false
		}
	}

	return true
}

// givenBuffer says that a function has a buffer to draw in.
func (b *painter) givenBuffer(fn *ssa.Function) bool {
	for _, pr := range fn.Params {
		if types.Identical(deref(pr.Type()), b.buf) {
			return true
		}
	}

	return false
}

// emptiness keeps states apart in which different areas are empty.
func (b *painter) emptiness(n *Node, live func(ssa.Value) bool) string {
	rect := b.rectType()
	key := ""

	add := func(name string, v Val) {
		if t, ok := v.(Tup); ok {
			r := b.rectOf(n.st, t)
			if n.st.proves(r.w.neg()) || n.st.proves(r.h.neg()) {
				key += name + " "
			}
		}
	}

	for _, k := range byName(n.env) {
		if live != nil && !live(k) {
			continue
		}

		// how far an enumerated list has been followed
		if v, ok := n.env[k].(Num); ok && b.counted > 0 && isPlainInt(k.Type()) && (b.everywhere || !b.givenBuffer(k.Parent())) {
			if l, ok := v.l.isConst(); ok && l >= 0 && l < b.counted {
				key += fmt.Sprintf("%s=%d ", k.Name(), l)
			}
		}

		switch {
		case types.Identical(k.Type(), rect):
			add(k.Name(), n.env[k])
		case isPtr(k.Type()) && types.Identical(deref(k.Type()), rect):
			if q, ok := n.env[k].(Ptr); ok && q.obj != 0 {
				if o := n.st.heap[q.obj]; o != nil && o.kind == 'v' {
					add(k.Name(), n.st.at(q))
				}
			}
		}
	}

	return key
}
