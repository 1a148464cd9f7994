package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W05", checkW05)
	register("I05", checkI05)
}

// stateOps lists the exported functions and methods of a package that are
// given a pointer to the state, sorted by name.
func stateOps(p *Prog, dir string, state *types.Named) []*ssa.Function {
	var out []*ssa.Function

	takes := func(fn *ssa.Function) bool {
		for _, pr := range fn.Params {
			if pt, ok := pr.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), state) {
				return true
			}
		}

		return false
	}

	scope := p.pkg(dir).Pkg.Scope()
	for _, n := range scope.Names() {
		switch o := scope.Lookup(n).(type) {
		case *types.Func:
			if fn := p.tryFn(dir, n); o.Exported() && fn != nil && takes(fn) {
				out = append(out, fn)
			}
		case *types.TypeName:
			named, ok := o.Type().(*types.Named)
			if !ok || o.IsAlias() || types.IsInterface(named) {
				continue
			}

			for _, fn := range p.exportedMethods(named) {
				if takes(fn) {
					out = append(out, fn)
				}
			}
		}
	}

	sort.Slice(out, func(i, k int) bool { return fname(out[i]) < fname(out[k]) })

	return out
}

// onlyPkg follows calls within a package and the internal helpers, others are
// known by their results only.
func (a *ai) onlyPkg(dir string, also func(c *CallCtx) (bool, []Outcome)) {
	own := a.p.pkg(dir).Pkg

	a.hooks.call = func(c *CallCtx) (bool, []Outcome) {
		if also != nil {
			if done, outs := also(c); done {
				return true, outs
			}
		}

		if c.callee == nil {
			return false, nil
		}

		pk := fnPkg(c.callee)
		if pk == nil || !isRepoPath(pk.Path()) || pk == own || strings.Contains(pk.Path(), "/internal/") {
			return false, nil
		}

		return true, a.opaque(c)
	}
}

// intLeaves gives the integers of a state, those behind pointers included, with
// the condition under which there is one.
func (a *ai) intLeaves(st *State, v Val, t types.Type) (names []string, conds []*bdd, vals []Lin) {
	for _, l := range leaves(t) {
		f := st.leafOf(v, t, l)

		if pt, ok := l.typ.Underlying().(*types.Pointer); ok {
			p, ok := f.(Ptr)
			if !ok || !isPlainInt(pt.Elem()) {
				continue
			}

			if st.decide(p.nil_) == 1 {
				continue
			}

			names = append(names, l.name)
			conds = append(conds, bNot(p.nil_))
			vals = append(vals, numOf(a.load(st, p, pt.Elem())))

			continue
		}

		if isPlainInt(l.typ) {
			names = append(names, l.name)
			conds = append(conds, bddTrue)
			vals = append(vals, numOf(f))
		}
	}

	return names, conds, vals
}

// isPlainInt says that a type is int itself.
func isPlainInt(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Int
}

// sliceLeaf is the only slice of a state.
func sliceLeaf(t types.Type) leaf {
	var out []leaf

	for _, l := range leaves(t) {
		if _, ok := l.typ.Underlying().(*types.Slice); ok {
			out = append(out, l)
		}
	}

	if len(out) != 1 {
		anchorf("%s does not have exactly one slice", t)
	}

	return out[0]
}

// changedInts names the integers of a state that a method changes in some way.
func changedInts(c *Check, p *Prog, dir, method string, args ...Val) []string {
	state := p.named(dir, "State")
	fn := p.methodOf(types.NewPointer(state), method)
	a := newAI(c, p)
	a.quiet++
	st := a.newState()
	v := a.fresh(st, state, "state")
	recv, id := a.recv(fn, st, v)
	_ = id

	changed := map[string]bool{}

	for _, o := range a.exec(fn, st, append([]Val{recv}, args...)...) {
		if o.panic {
			continue
		}

		now := o.st.at(recv)
		for _, l := range leaves(state) {
			if isPlainInt(l.typ) && !o.st.same(o.st.leafOf(now, state, l), o.st.leafOf(v, state, l)) {
				changed[l.name] = true
			}
		}
	}

	var out []string
	for n := range changed {
		out = append(out, n)
	}

	sort.Strings(out)

	return out
}

func leafNamed(t types.Type, name string) leaf {
	for _, l := range leaves(t) {
		if l.name == name {
			return l
		}
	}

	panic(anchorError{t.String() + " has no field " + name})
}

// bounded is a check of one state type.
type bounded struct {
	c     *Check
	p     *Prog
	dir   string
	state *types.Named
	// inv gives the conditions that hold between any two operations
	inv func(a *ai, st *State, v Val) ([]string, []*bdd)
}

// start makes a state where the conditions hold.
func (b *bounded) start(a *ai) (*State, Val) {
	st := a.newState()
	v := a.fresh(st, b.state, "state")

	if a.wrap {
		_, conds, vals := a.intLeaves(st, v, b.state)
		for i, l := range vals {
			st.assume(bOr(bNot(conds[i]), bAnd(bGE(maxInt().sub(l)), bGE(l.add(maxInt()).addConst(1)))))
		}

		for _, l := range leaves(b.state) {
			if s, ok := st.leafOf(v, b.state, l).(Slc); ok {
				st.addCons(maxInt().sub(s.len).addConst(-1))
			}
		}
	}

	_, cs := b.inv(a, st, v)
	for _, c := range cs {
		st.assume(c)
	}

	return st, v
}

// keeps checks that an operation keeps the conditions.
func (b *bounded) keeps(fn *ssa.Function, wrap bool, pre func(st *State, args []Val)) {
	a := newAI(b.c, b.p)
	a.wrap = wrap
	a.maxNodes = 64

	if !wrap {
		a.maxNodes, a.coarse = 4, true
	}

	a.onlyPkg(b.dir, nil)
	st, v := b.start(a)

	var (
		args []Val
		at   Ptr
	)

	for i, pr := range fn.Params {
		if pt, ok := pr.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), b.state) {
			id := st.newVar(b.state, v, "state")
			at = Ptr{obj: id, nil_: bddFalse}
			args = append(args, at)

			continue
		}

		arg := a.param(fn, st, i, "arg"+pr.Name())
		if n, ok := arg.(Num); ok && a.wrap && isPlainInt(pr.Type()) {
			st.assume(bAnd(bGE(maxInt().sub(n.l)), bGE(n.l.add(maxInt()).addConst(1))))
		}

		args = append(args, arg)
	}

	if pre != nil {
		pre(st, args)
	}

	good := map[string]bool{}
	bad := map[string]string{}
	n := 0

	for _, start := range b.cases(st, v) {
		for _, o := range a.exec(fn, start, args...) {
			if o.panic {
				continue
			}

			n++

			names, cs := b.inv(a, o.st, o.st.at(at))
			for i, c := range cs {
				good[names[i]] = true

				if !o.st.holds(c) {
					bad[names[i]] = "it could not be shown after the operation"
				}
			}
		}
	}

	a.notesFail("undecided")

	where := b.p.pos(fn.Pos())
	what := short(fn)

	if n == 0 {
		b.c.fail("the operation returns", what, where, "no path of it returns")
		return
	}

	for _, name := range inOrder(good) {
		b.c.want(bad[name] == "", name, what, where, bad[name])
	}
}

// cases gives a state for each choice of which optional parts there are.
func (b *bounded) cases(st *State, v Val) []*State {
	out := []*State{st}

	for _, l := range leaves(b.state) {
		p, ok := st.leafOf(v, b.state, l).(Ptr)
		if !ok {
			continue
		}

		var next []*State
		for _, s := range out {
			s.split(p.nil_, func(s *State, _ bool) { next = append(next, s) })
		}

		out = next
	}

	return out
}

// holds decides a condition by cases of its atoms.
func (st *State) holds(b *bdd) bool {
	switch st.decide(b) {
	case 1:
		return true
	case 0:
		return false
	}

	for _, a := range bddSupport(b) {
		at := bddVar(a)
		if st.decide(at) != -1 {
			continue
		}

		good := true

		for _, v := range []bool{true, false} {
			s := st.fork()
			q := at
			if !v {
				q = bNot(at)
			}

			if s.assume(q) && !s.holds(bddRestrict(b, map[int]bool{a: v})) {
				good = false
				break
			}
		}

		return good
	}

	return false
}

func short(fn *ssa.Function) string {
	s := fname(fn)
	s = strings.ReplaceAll(s, "github.com/metafates/bento/widget/", "")
	s = strings.ReplaceAll(s, "github.com/metafates/bento/", "")

	return strings.ReplaceAll(s, "github.com/metafates/bento.", "")
}

// moves checks what a method makes of one integer of the state.
func (b *bounded) moves(method string, mk func(a *ai) []Val, get func(a *ai, st *State, v Val) Lin, want func(a *ai, st *State, v Val) func(got Lin) *bdd) {
	fn := b.p.methodOf(types.NewPointer(b.state), method)
	a := newAI(b.c, b.p)
	a.wrap = true
	a.maxNodes = 64
	a.onlyPkg(b.dir, nil)
	st, v := b.start(a)
	w := want(a, st, v)
	recv, _ := a.recv(fn, st, v)

	var args []Val
	if mk != nil {
		args = mk(a)
	}

	n, why := 0, ""

	for _, o := range a.exec(fn, st, append([]Val{recv}, args...)...) {
		if o.panic {
			why = "it can panic"
			continue
		}

		n++

		got := get(a, o.st, o.st.at(recv))
		if !o.st.holds(w(got)) {
			why = "the new position could not be shown to be the one wanted: " + got.String()
		}
	}

	a.notesFail("undecided")

	what := short(fn)
	for _, x := range args {
		what += " " + valKey(x)
	}

	if n == 0 {
		why = "no path of it returns"
	}

	b.c.want(why == "", "moves exactly as named", what, b.p.pos(fn.Pos()), why)
}

// eqMin says that got = min(x, y); eqMax that got = max(x, y).
func eqMin(got, x, y Lin) *bdd { return ite(bGE(y.sub(x)), bEQ(got.sub(x)), bEQ(got.sub(y))) }
func eqMax(got, x, y Lin) *bdd { return ite(bGE(x.sub(y)), bEQ(got.sub(x)), bEQ(got.sub(y))) }

func checkW05(c *Check) {
	p := c.prog("linux")

	// lists
	list := &bounded{c: c, p: p, dir: "widget/listwidget", state: p.named("widget/listwidget", "State")}
	list.inv = func(a *ai, st *State, v Val) (names []string, out []*bdd) {
		ns, conds, vals := a.intLeaves(st, v, list.state)
		for i := range ns {
			names = append(names, "index is not negative: "+ns[i])
			out = append(out, bOr(bNot(conds[i]), bGE(vals[i])))
		}

		return names, out
	}

	for _, fn := range stateOps(p, list.dir, list.state) {
		render := strings.HasPrefix(fn.Name(), "Render")
		list.keeps(fn, !render, nil)
	}

	// the selected item, or a number below it
	sel := func(a *ai, st *State, v Val) (Lin, *bdd) {
		for _, l := range leaves(list.state) {
			if pt, ok := l.typ.Underlying().(*types.Pointer); ok && isPlainInt(pt.Elem()) {
				q := st.leafOf(v, list.state, l).(Ptr)
				if st.decide(q.nil_) == 1 {
					return linC(-1), bddTrue
				}

				return numOf(a.load(st, q, pt.Elem())), q.nil_
			}
		}

		panic(anchorError{"the state of a list has no optional index"})
	}
	get := func(a *ai, st *State, v Val) Lin {
		l, none := sel(a, st, v)
		if st.decide(none) != 0 {
			return linS(symOf("nothing selected"))
		}

		return l
	}

	list.moves("SelectNext", nil, get, func(a *ai, st *State, v Val) func(Lin) *bdd {
		k, none := sel(a, st, v)
		return func(got Lin) *bdd { return ite(none, bEQ(got), eqMin(got, k.addConst(1), maxInt())) }
	})
	list.moves("SelectPrevious", nil, get, func(a *ai, st *State, v Val) func(Lin) *bdd {
		k, none := sel(a, st, v)
		return func(got Lin) *bdd { return ite(none, bGE(got), eqMax(got, k.addConst(-1), linC(0))) }
	})
	list.moves("SelectFirst", nil, get, func(a *ai, st *State, v Val) func(Lin) *bdd {
		return func(got Lin) *bdd { return bEQ(got) }
	})

	selected(c, list, sel)

	// scrollbars
	bar := &bounded{c: c, p: p, dir: "widget/scrollwidget", state: p.named("widget/scrollwidget", "State")}
	content, position := scrollFields(c, p, bar)
	bar.inv = func(a *ai, st *State, v Val) ([]string, []*bdd) {
		n := numOf(st.leafOf(v, bar.state, content))
		q := numOf(st.leafOf(v, bar.state, position))
		last := eqMaxOf(n.addConst(-1), linC(0))

		return []string{"length is not negative", "position is not negative", "position is not beyond the last"},
			[]*bdd{bGE(n), bGE(q), last(q)}
	}

	for _, fn := range stateOps(p, bar.dir, bar.state) {
		bar.keeps(fn, true, func(st *State, args []Val) {
			// positions that are set are to be valid
			if fn.Signature.Params().Len() == 1 && isPlainInt(fn.Signature.Params().At(0).Type()) {
				v := st.at(args[0])
				n, q := numOf(st.leafOf(v, bar.state, content)), numOf(args[1])
				st.assume(bGE(q))
				st.assume(eqMaxOf(n.addConst(-1), linC(0))(q))
			}
		})
	}

	pos := func(a *ai, st *State, v Val) Lin { return numOf(st.leafOf(v, bar.state, position)) }
	fields := func(st *State, v Val) (n, q Lin) {
		return numOf(st.leafOf(v, bar.state, content)), numOf(st.leafOf(v, bar.state, position))
	}
	next := func(a *ai, st *State, v Val) func(Lin) *bdd {
		n, q := fields(st, v)
		return func(got Lin) *bdd {
			return ite(bGE(n.addConst(-1)), eqMin(got, q.addConst(1), n.addConst(-1)), bEQ(got))
		}
	}
	prev := func(a *ai, st *State, v Val) func(Lin) *bdd {
		_, q := fields(st, v)
		return func(got Lin) *bdd { return eqMax(got, q.addConst(-1), linC(0)) }
	}

	bar.moves("Next", nil, pos, next)
	bar.moves("Prev", nil, pos, prev)
	bar.moves("First", nil, pos, func(a *ai, st *State, v Val) func(Lin) *bdd {
		return func(got Lin) *bdd { return bEQ(got) }
	})
	bar.moves("Last", nil, pos, func(a *ai, st *State, v Val) func(Lin) *bdd {
		n, _ := fields(st, v)
		return func(got Lin) *bdd { return eqMax(got, n.addConst(-1), linC(0)) }
	})

	byDirection := map[string]func(*ai, *State, Val) func(Lin) *bdd{"DirectionForward": next, "DirectionBackward": prev}
	for _, name := range inOrder(byDirection) {
		want := byDirection[name]
		k := p.scoped(bar.dir, name)
		bar.moves("Scroll", func(a *ai) []Val {
			return []Val{a.goConst(k.Val(), k.Type().Underlying().(*types.Basic), k.Type())}
		}, pos, want)
	}

	// inputs
	in := &bounded{c: c, p: p, dir: "widget/inputwidget", state: p.named("widget/inputwidget", "State")}
	text := sliceLeaf(in.state)

	moved := changedInts(c, p, in.dir, "MoveCursorRight")
	if len(moved) != 1 {
		anchorf("moving the cursor of an input changes %d of its integers", len(moved))
	}

	cursor := leafNamed(in.state, moved[0])
	in.inv = func(a *ai, st *State, v Val) (names []string, out []*bdd) {
		n := st.leafOf(v, in.state, text).(Slc).len

		ns, conds, vals := a.intLeaves(st, v, in.state)
		for i := range ns {
			names = append(names, "position is not negative: "+ns[i])
			out = append(out, bOr(bNot(conds[i]), bGE(vals[i])))
		}

		names = append(names, "cursor is within the text")
		out = append(out, bGE(n.sub(numOf(st.leafOf(v, in.state, cursor)))))

		return names, out
	}

	for _, fn := range stateOps(p, in.dir, in.state) {
		in.keeps(fn, false, nil)
	}

	cur := func(a *ai, st *State, v Val) Lin { return numOf(st.leafOf(v, in.state, cursor)) }
	length := func(st *State, v Val) Lin { return st.leafOf(v, in.state, text).(Slc).len }

	in.moves("MoveCursorRight", nil, cur, func(a *ai, st *State, v Val) func(Lin) *bdd {
		q, n := cur(a, st, v), length(st, v)
		return func(got Lin) *bdd { return eqMin(got, q.addConst(1), n) }
	})
	in.moves("MoveCursorLeft", nil, cur, func(a *ai, st *State, v Val) func(Lin) *bdd {
		q := cur(a, st, v)
		return func(got Lin) *bdd { return eqMax(got, q.addConst(-1), linC(0)) }
	})
	in.moves("MoveCursorBegin", nil, cur, func(a *ai, st *State, v Val) func(Lin) *bdd {
		return func(got Lin) *bdd { return bEQ(got) }
	})
	in.moves("MoveCursorEnd", nil, cur, func(a *ai, st *State, v Val) func(Lin) *bdd {
		n := length(st, v)
		return func(got Lin) *bdd { return bEQ(got.sub(n)) }
	})

	// the states that are made
	for _, b := range []*bounded{list, bar, in} {
		fn := p.fn(b.dir, "NewState")
		a := newAI(c, p)
		st := a.newState()

		var args []Val

		for i := range fn.Params {
			v := a.param(fn, st, i, fmt.Sprintf("arg%d", i))
			if n, ok := v.(Num); ok {
				st.assume(bGE(n.l))
			}

			args = append(args, v)
		}

		for _, o := range a.exec(fn, st, args...) {
			if o.panic {
				c.fail("a new state is within its bounds", short(fn), p.pos(fn.Pos()), "it panics")
				continue
			}

			names, cs := b.inv(a, o.st, o.st.at(o.vals[0]))
			for i, x := range cs {
				c.want(o.st.decide(x) == 1, "a new state is within its bounds", short(fn)+": "+names[i], p.pos(fn.Pos()), "it could not be shown")
			}
		}

		a.notesFail("undecided")
	}

	c.assume("the length of a scrollbar's content, the positions set for it and the bounds asked for are valid")
	c.assume("ints wrap around where the operations of lists and scrollbars add to them; an input does not hold the largest number of graphemes there is")
	c.atLeast("moves exactly as named", 13)
	c.atLeast("cursor is within the text", 10)
}

// eqMaxOf says that a number is at most the larger of two.
func eqMaxOf(x, y Lin) func(Lin) *bdd {
	return func(q Lin) *bdd { return bOr(bGE(x.sub(q)), bGE(y.sub(q))) }
}

// selected checks the index that a list reports.
func selected(c *Check, b *bounded, sel func(*ai, *State, Val) (Lin, *bdd)) {
	fn := b.p.methodOf(types.NewPointer(b.state), "Selected")
	a := newAI(c, b.p)
	st, v := b.start(a)
	recv, _ := a.recv(fn, st, v)
	limit := a.param(fn, st, 1, "limit")
	st.assume(bGE(numOf(limit)))

	k, none := sel(a, st, v)

	for _, o := range a.exec(fn, st, recv, limit) {
		if o.panic {
			c.fail("reported index", short(fn), b.p.pos(fn.Pos()), "it panics")
			continue
		}

		got, ok := numOf(o.vals[0]), o.vals[1].(Boo)
		c.want(o.st.decide(bIff(ok.b, bNot(none))) == 1, "an index is reported exactly if an item is selected", short(fn), b.p.pos(fn.Pos()), "")
		c.want(o.st.decide(bOr(none, eqMin(got, k, numOf(limit)))) == 1, "reported index", short(fn), b.p.pos(fn.Pos()), "it is not the selected one, limited by the argument")
	}

	a.notesFail("undecided")
}

// scrollFields finds what a scrollbar's state keeps its length and position in.
func scrollFields(c *Check, p *Prog, b *bounded) (content, position leaf) {
	found := 0

	a := newAI(c, p)
	st := a.newState()
	fn := p.fn(b.dir, "NewState")
	arg := a.param(fn, st, 0, "length")

	for _, o := range a.exec(fn, st, arg) {
		for _, l := range leaves(b.state) {
			if isPlainInt(l.typ) && o.st.same(o.st.leafOf(o.st.at(o.vals[0]), b.state, l), arg) {
				content = l
				found++
			}
		}
	}

	get := p.methodOf(types.NewPointer(b.state), "Position")
	v := a.fresh(st, b.state, "state")
	recv, _ := a.recv(get, st, v)

	for _, o := range a.exec(get, st, recv) {
		for _, l := range leaves(b.state) {
			if isPlainInt(l.typ) && o.st.same(o.st.leafOf(v, b.state, l), o.vals[0]) {
				position = l
				found++
			}
		}
	}

	if found != 2 {
		anchorf("the length and the position of a scrollbar are not kept in one field each")
	}

	return content, position
}

// updaters are the types of the repository that offer to take messages.
func updaters(p *Prog) []*types.Named {
	iface := p.named("", "TryUpdater").Underlying().(*types.Interface)

	var out []*types.Named

	for _, path := range inOrder(p.spkgs) {
		if !isRepoPath(path) || strings.Contains(path, "/examples/") {
			continue
		}

		scope := p.spkgs[path].Pkg.Scope()
		for _, n := range scope.Names() {
			o, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() {
				continue
			}

			t, ok := o.Type().(*types.Named)
			if ok && !types.IsInterface(t) && types.Implements(types.NewPointer(t), iface) {
				out = append(out, t)
			}
		}
	}

	return out
}

func dirOf(n *types.Named) string {
	return strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")
}

// offered runs TryUpdate for a message.
type offered struct {
	a    *ai
	fn   *ssa.Function
	t    *types.Named
	st   *State
	recv Val
	old  Val
}

func newOffered(c *Check, p *Prog, t *types.Named) *offered {
	a := newAI(c, p)
	a.maxNodes = 200
	fn := p.methodOf(types.NewPointer(t), "TryUpdate")
	st := a.newState()
	v := a.fresh(st, t, "state")

	_, conds, vals := a.intLeaves(st, v, t)
	for i, l := range vals {
		st.assume(bOr(bNot(conds[i]), bGE(l)))
	}

	for _, l := range leaves(t) {
		if s, ok := st.leafOf(v, t, l).(Slc); ok {
			for i := range vals {
				st.assume(bGE(s.len.sub(vals[i])))
			}
		}
	}

	recv, _ := a.recv(fn, st, v)

	return &offered{a, fn, t, st, recv, v}
}

// unchanged decides that an outcome left the state as it was.
func (o *offered) unchanged(st *State) string {
	now := st.at(o.recv)

	for _, l := range leaves(o.t) {
		if !st.deepSame(st.leafOf(now, o.t, l), st.leafOf(o.old, o.t, l)) {
			return l.name
		}
	}

	return ""
}

func (o *offered) msg(t types.Type, v Val) Val { return Ifc{typ: t, val: v, nil_: bddFalse} }

// ignored checks that a message is not consumed and changes nothing.
func (o *offered) ignored(rule, what string, msg Val) {
	c, p := o.a.c, o.a.p
	where := p.pos(o.fn.Pos())
	name := short(o.fn) + ": " + what
	why := ""
	n := 0

	for _, out := range o.a.exec(o.fn, o.st.fork(), o.recv, msg) {
		if out.panic {
			why = "it panics"
			break
		}

		n++

		if out.st.decide(out.vals[1].(Boo).b) != 0 {
			why = "it is reported as consumed"
			break
		}

		if f := o.unchanged(out.st); f != "" {
			why = f + " of the state is changed"
			break
		}
	}

	o.a.notesFail("undecided")

	if n == 0 && why == "" {
		why = "no path returns"
	}

	c.want(why == "", rule, name, where, why)
}

func checkI05(c *Check) {
	p := c.prog("linux")
	keyMsg, key := p.named("", "KeyMsg"), p.named("", "Key")
	foreign := p.named("", "WindowSizeMsg")

	ts := updaters(p)
	for _, t := range ts {
		dir := dirOf(t)

		// of whatever kind the message is, what is not consumed changes nothing
		o := newOffered(c, p, t)
		o.a.onlyPkg(dir, nil)

		where := p.pos(o.fn.Pos())
		why := ""
		n, acts := 0, 0

		for _, kind := range []types.Type{keyMsg, nil} {
			msg := o.a.fresh(o.st, o.fn.Params[1].Type(), "msg")
			if kind != nil {
				msg = o.msg(kind, o.a.fresh(o.st, kind, "key"))
			}

			for _, out := range o.a.exec(o.fn, o.st.fork(), o.recv, msg) {
				if out.panic {
					continue
				}

				n++

				out.st.split(out.vals[1].(Boo).b, func(st *State, consumed bool) {
					if consumed {
						acts++
						return
					}

					if f := o.unchanged(st); f != "" {
						why = f + " is changed by a message that is not reported as consumed"
					}
				})
			}
		}

		o.a.notesFail("undecided")

		if why == "" && (n == 0 || acts == 0) {
			why = fmt.Sprintf("%d paths return, %d of them consume the message", n, acts)
		}

		c.want(why == "", "what is not consumed changes nothing", short(o.fn), where, why)

		// messages that are none of its business
		o.ignored("a message of another kind is not consumed", "nil", Ifc{nil_: bddTrue})
		o.ignored("a message of another kind is not consumed", "a window size", o.msg(foreign, o.a.fresh(o.st, foreign, "size")))

		unknown := newOffered(c, p, t)
		unknown.a.onlyPkg(dir, func(cc *CallCtx) (bool, []Outcome) {
			// the name of a key that has none
			if cc.callee != nil && cc.callee.Name() == "String" && cc.callee.Signature.Recv() != nil &&
				(types.Identical(cc.callee.Signature.Recv().Type(), key) || types.Identical(cc.callee.Signature.Recv().Type(), keyMsg)) {
				return cc.ret(strC("a key that has no name"))
			}

			return false, nil
		})

		v := unknown.a.fresh(unknown.st, keyMsg, "key").(Tup)
		fs := append([]Val(nil), v.fs...)
		fs[fieldIdx(key, "Type")] = Num{linC(-10000)}
		unknown.ignored("a key that means nothing is not consumed", "unknown key", unknown.msg(keyMsg, Tup{fs}))
	}

	if len(ts) < 3 {
		c.fail("types that take messages", "TryUpdater", p.pos(p.named("", "TryUpdater").Obj().Pos()), fmt.Sprintf("only %d are found", len(ts)))
	}

	throbberTicks(c, p)
}

// throbberTicks follows the ticks of throbbers from one update to the next.
func throbberTicks(c *Check, p *Prog) {
	const dir = "widget/throbberwidget"

	t := p.named(dir, "State")
	root := p.pkg("").Pkg.Path()

	var ticks []Val

	o := newOffered(c, p, t)
	for _, l := range leaves(t) {
		if isPlainInt(l.typ) {
			// numbers are given out from one on
			o.st.assume(bGE(numOf(o.st.leafOf(o.old, t, l)).addConst(-1)))
		}
	}

	o.a.onlyPkg(dir, func(cc *CallCtx) (bool, []Outcome) {
		if cc.name == root+".Tick" && len(cc.args) == 2 {
			ticks = append(ticks, cc.args[1])
			return cc.ret(Fun{nil_: bddFalse, term: fmt.Sprintf("tick%d", len(ticks)-1)})
		}

		return false, nil
	})

	where := p.pos(o.fn.Pos())

	// the tick that starts a throbber
	start := p.methodOf(types.NewPointer(t), "Tick")

	outs := o.a.exec(start, o.st, o.recv)
	if len(outs) != 1 || outs[0].panic {
		c.fail("a throbber's tick", short(start), p.pos(start.Pos()), "it is not one message")
		return
	}

	deliver := func(st *State, recv, msg Val) []Outcome {
		return o.a.exec(o.fn, st.fork(), recv, msg)
	}

	// other is a different throbber
	other := func(st *State) Val {
		v := o.a.fresh(st, t, "other")

		for _, l := range leaves(t) {
			if isPlainInt(l.typ) {
				st.assume(bGE(numOf(st.leafOf(v, t, l)).addConst(-1)))
			}
		}

		id := p.methodOf(types.NewPointer(t), "ID")
		q := st.newVar(t, v, "other")
		at := Ptr{obj: q, nil_: bddFalse}

		ids := func(r Val) Lin {
			os := o.a.exec(id, st.fork(), r)
			if len(os) != 1 || os[0].panic {
				anchorf("the identity of a throbber is not a number")
			}

			return numOf(os[0].vals[0])
		}

		st.assume(bNot(bEQ(ids(at).sub(ids(o.recv)))))

		return at
	}

	verdict := func(rule, name string, outs []Outcome, want bool) []Outcome {
		why := ""
		if len(outs) == 0 {
			why = "no path returns"
		}

		for _, x := range outs {
			if x.panic {
				why = "it panics"
				continue
			}

			d := x.st.decide(x.vals[1].(Boo).b)
			if want && d != 1 {
				why = "it is not consumed"
			}

			if !want && d != 0 {
				why = "it is consumed"
			}
		}

		c.want(why == "", rule, name, where, why)

		return outs
	}

	first := outs[0]
	away := first.st.fork()
	verdict("a throbber ignores the ticks of others", "first tick", deliver(away, other(away), first.vals[0]), false)

	for _, next := range verdict("a throbber takes its own ticks", "first tick", deliver(first.st, o.recv, first.vals[0]), true) {
		if next.panic || next.st.decide(next.vals[1].(Boo).b) != 1 {
			continue
		}

		f, ok := next.vals[0].(Fun)

		var k int
		if _, err := fmt.Sscanf(f.term, "tick%d", &k); !ok || err != nil || k >= len(ticks) {
			c.fail("a consumed tick asks for the next one", short(o.fn), where, "the command it returns is no tick")
			continue
		}

		c.ok("a consumed tick asks for the next one", short(o.fn), where)

		st := next.st
		now := o.a.fresh(st, p.tickTime(), "now")

		for _, m := range live(o.a.callFun(st, ticks[k], now)) {
			if m.panic {
				c.fail("a consumed tick asks for the next one", short(o.fn), where, "the command panics")
				continue
			}

			away := m.st.fork()
			verdict("a throbber ignores the ticks of others", "next tick", deliver(away, other(away), m.vals[0]), false)

			for _, again := range verdict("a throbber takes its own ticks", "next tick", deliver(m.st, o.recv, m.vals[0]), true) {
				if !again.panic {
					verdict("a throbber ignores outdated ticks", "tick delivered again", deliver(again.st, o.recv, m.vals[0]), false)
				}
			}
		}
	}

	o.a.notesFail("undecided")
}

// tickTime is the type of the moment a tick is given.
func (p *Prog) tickTime() types.Type {
	fn := p.fn("", "Tick")
	return fn.Signature.Params().At(1).Type().Underlying().(*types.Signature).Params().At(0).Type()
}

// callFun calls a function value.
func (a *ai) callFun(st *State, v Val, args ...Val) []Outcome {
	f, ok := v.(Fun)
	if !ok || f.fn == nil {
		anchorf("the function called is not known")
	}

	return live(a.run(f.fn, args, f.binds, st, nil, nil, false))
}
