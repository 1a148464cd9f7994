package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

func init() {
	register("L02", checkL02)
}

// The priorities of the constraints of a layout, highest first.
var priorities = []string{
	"the bounds of the area",
	"empty outer gaps",
	"the sizes of gaps",
	"minimum and maximum",
	"length",
	"percentage",
	"ratio",
	"the targets of minimum and maximum",
	"fill",
	"proportions of fills, growth of outer gaps",
	"growth of gaps in between",
	"equal segments",
}

const (
	prioBounds = iota
	prioOuter
	prioGap
	prioMinMax
	prioLength
	prioPercentage
	prioRatio
	prioTarget
	prioFill
	prioGrow
	prioSpace
	prioEqual
)

// relation is a constraint: the sum of the variables, times their factors, and
// of the constant compared with zero.
type relation struct {
	op     string // "=" or "<="
	vars   map[int]real
	c      real
	weight *big.Rat
	prio   int
	what   string
}

func (r relation) key() string {
	text := func(neg bool) string {
		f := func(a real) string {
			if neg {
				a = a.neg()
			}

			return a.key()
		}

		var ks []int

		for k, v := range r.vars {
			if len(v) > 0 {
				ks = append(ks, k)
			}
		}

		sort.Ints(ks)

		s := ""
		for _, k := range ks {
			s += fmt.Sprintf("(%s)·v%d + ", f(r.vars[k]), k)
		}

		if s == "" {
			return ""
		}

		return s + "(" + f(r.c) + ")"
	}

	s := text(false)
	if n := text(true); r.op == "=" && n < s {
		s = n
	}

	if s == "" {
		return ""
	}

	return s + " " + r.op + " 0"
}

// with replaces unknowns of which the value is known.
func (r relation) with(known map[string]real) relation {
	if len(known) == 0 {
		return r
	}

	vars := map[int]real{}
	for k, v := range r.vars {
		vars[k] = v.subst(known)
	}

	r.vars, r.c = vars, r.c.subst(known)

	return r
}

// side is a sum of variables.
type side struct {
	vars map[int]real
	c    real
}

func sizeOf(start, end int) side {
	s := side{vars: map[int]real{}}
	s.vars[end] = realI(1)
	s.vars[start] = s.vars[start].sub(realI(1))

	return s
}

func varSide(v int) side    { return side{vars: map[int]real{v: realI(1)}} }
func constSide(c real) side { return side{c: c} }

func (s side) times(k real) side {
	r := side{vars: map[int]real{}, c: s.c.mul(k)}
	for v, f := range s.vars {
		r.vars[v] = f.mul(k)
	}

	return r
}

func compare(prio int, what string, a side, op string, b side) relation {
	if op == ">=" {
		a, b, op = b, a, "<="
	}

	r := relation{op: op, prio: prio, what: what, vars: map[int]real{}, c: a.c.sub(b.c)}
	for v, f := range a.vars {
		r.vars[v] = r.vars[v].add(f)
	}

	for v, f := range b.vars {
		r.vars[v] = r.vars[v].sub(f)
	}

	return r
}

type layouts struct {
	c  *Check
	p  *Prog
	ai *ai

	layout, strength, operator, expr, term, variable *types.Named

	weights  map[int]map[string]*big.Rat // of a priority, by text
	unknowns []string                    // of the values of a layout
}

// layoutKind is a kind of constraint with a value.
type layoutKind struct {
	name  string
	title string
	value func(a *ai, st *State, i int) (Val, map[string]real)
}

func checkL02(c *Check) {
	p := c.prog("linux")
	s := &layouts{
		c: c, p: p,
		layout:   p.named("", "Layout"),
		strength: p.named(solverDir, "Strength"),
		operator: p.named(solverDir, "RelationOperator"),
		expr:     p.named(solverDir, "Expression"),
		term:     p.named(solverDir, "Term"),
		variable: p.named(solverDir, "Variable"),
		weights:  map[int]map[string]*big.Rat{},
	}

	num := func(least int64) func(a *ai, st *State, i int) (Val, map[string]real) {
		return func(_ *ai, st *State, i int) (Val, map[string]real) {
			n := linS(symOf(fmt.Sprint("size", i)))
			st.assume(bGE(n.addConst(-least)))

			return Num{n}, map[string]real{"n": realLin(n)}
		}
	}

	ratio := func(den func(i int) (Lin, int64)) func(a *ai, st *State, i int) (Val, map[string]real) {
		return func(a *ai, st *State, i int) (Val, map[string]real) {
			t := p.named("", "ConstraintRatio")
			n := linS(symOf(fmt.Sprint("num", i)))
			d, least := den(i)
			st.assume(bGE(n))
			st.assume(bGE(d.addConst(-least)))

			v := a.zeroVal(t).(Tup)
			fs := append([]Val(nil), v.fs...)
			fs[fieldIdx(t, "Num")], fs[fieldIdx(t, "Den")] = Num{n}, Num{d}

			by := realLin(d)
			if least == 0 {
				by = realI(1)
			}

			return Tup{fs}, map[string]real{"n": realLin(n).div(by)}
		}
	}

	kinds := []layoutKind{
		{"ConstraintMin", "minimum", num(0)},
		{"ConstraintMax", "maximum", num(0)},
		{"ConstraintLen", "length", num(0)},
		{"ConstraintPercentage", "percentage", num(0)},
		{"ConstraintRatio", "ratio", ratio(func(i int) (Lin, int64) { return linS(symOf(fmt.Sprint("den", i))), 1 })},
		{"ConstraintFill", "fill", num(1)},
	}

	odd := []layoutKind{
		{"ConstraintRatio", "ratio of a denominator of zero", ratio(func(int) (Lin, int64) { return linC(0), 0 })},
		{"ConstraintFill", "fill of zero", func(*ai, *State, int) (Val, map[string]real) {
			return Num{linC(0)}, map[string]real{"n": realC(big.NewRat(1, 1_000_000))}
		}},
	}

	var flexes, directions []*types.Const

	flexes = p.constsOf(p.named("", "Flex"))
	directions = p.constsOf(p.named("", "Direction"))

	for _, dir := range directions {
		for _, flex := range flexes {
			run := func(ks ...layoutKind) { s.decide(dir, flex, "SpacingSpace", false, ks) }

			if flex.Name() != "FlexSpaceAround" {
				// where nothing is surrounded, nothing is required of the gap
				run()
			}

			for i, a := range kinds {
				run(a)

				for j, b := range kinds {
					run(a, b)

					// three segments and more: the gaps in between, and pairs
					// that are not next to each other
					run(a, b, kinds[(i+j)%len(kinds)])
				}
			}

			for _, a := range odd {
				run(a)
				run(a, kinds[5])
				run(kinds[0], a)
			}

			run(kinds[5], kinds[2], kinds[5], kinds[0])
			run(kinds[0], kinds[5], kinds[0], kinds[1])
			s.decide(dir, flex, "SpacingOverlap", false, []layoutKind{kinds[2], kinds[3], kinds[5]})
			s.decide(dir, flex, "", false, []layoutKind{kinds[2], kinds[3], kinds[5]})
			s.decide(dir, flex, "SpacingSpace", true, []layoutKind{kinds[2], kinds[5]})
		}
	}

	s.order()
	c.atLeast("constraints stated", 500)
	c.atLeast("areas returned", 500)
	c.atLeast("order of priorities", len(priorities)-1)
}

// decide analyses a layout of segments of the given kinds.
func (s *layouts) decide(dir, flex *types.Const, spacing string, padded bool, kinds []layoutKind) {
	var names []string
	for _, k := range kinds {
		names = append(names, k.title)
	}

	split := s.p.methodOf(s.layout, "SplitWithSpacers")
	if split == nil {
		anchorf("Layout has no method SplitWithSpacers")
	}

	what := fmt.Sprintf("%s, %s, [%s]", dir.Name(), flex.Name(), strings.Join(names, ", "))
	if spacing != "SpacingSpace" {
		what += ", spacing: " + spacing
	}

	if padded {
		what += ", padded"
	}

	began := time.Now()
	at := s.p.pos(split.Pos())
	a := newAI(s.c, s.p)
	a.reals = map[string]real{}
	s.ai = a
	st := a.newState()

	v := append([]Val(nil), a.zeroVal(s.layout).(Tup).fs...)
	set := func(name string, val Val) { v[fieldIdx(s.layout, name)] = val }

	var (
		values []map[string]real
		cs     []Val
	)

	s.unknowns = []string{"spacing"}

	for i, k := range kinds {
		s.unknowns = append(s.unknowns, fmt.Sprint("size", i), fmt.Sprint("num", i), fmt.Sprint("den", i))
		t := s.p.named("", k.name)
		val, m := k.value(a, st, i)
		cs = append(cs, Ifc{nil_: bddFalse, typ: t, val: val})
		values = append(values, m)
	}

	set("Constraints", st.newSlice(s.p.named("", "Constraint"), cs))
	set("Direction", a.goConst(dir.Val(), types.Typ[types.Int], dir.Type()))
	set("Flex", a.goConst(flex.Val(), types.Typ[types.Int], flex.Type()))

	gap := realI(0)

	if spacing != "" {
		n := linS(symOf("spacing"))
		st.assume(bGE(n))
		set("Spacing", Ifc{nil_: bddFalse, typ: s.p.named("", spacing), val: Num{n}})

		gap = realLin(n)
		if spacing == "SpacingOverlap" {
			gap = gap.neg()
		}
	}

	rv, area := a.newRect(st, "area")

	if padded {
		pad := s.p.named("", "Padding")
		pv := a.fresh(st, pad, "padding")
		side := func(n string) Lin { return numOf(a.walkField(st, pv, pad, n)) }
		l, r, t, b := side("Left"), side("Right"), side("Top"), side("Bottom")

		for _, x := range []Lin{l, r, t, b, area.w.sub(l).sub(r).addConst(-1), area.h.sub(t).sub(b).addConst(-1)} {
			st.assume(bGE(x))
		}

		set("Padding", pv)
		area = rectL{area.x.add(l), area.y.add(t), area.w.sub(l).sub(r), area.h.sub(t).sub(b)}
	}

	count := 0
	changes := s.p.methodOf(types.NewPointer(s.p.named(solverDir, "Solver")), "FetchChanges")
	add := s.p.methodOf(types.NewPointer(s.p.named(solverDir, "Solver")), "AddConstraint")

	if changes == nil || add == nil {
		anchorf("the solver has no AddConstraint or FetchChanges")
	}

	var bad []string

	a.hooks.call = func(c *CallCtx) (bool, []Outcome) {
		f := c.callee
		if f == nil {
			return false, nil
		}

		switch {
		case f == add:
			r, err := s.read(c.st, c.args[1])
			if err != "" {
				bad = append(bad, err+" at "+c.pos())
			}

			c.st.gvAdd("stated", Opq{s.keep(r)})

			return c.ret(Ifc{nil_: bddTrue})
		case f == changes:
			if len(kinds) > 1 {
				// the positions are in order
				for i := 0; i+1 < len(c.st.gvList("variables")); i++ {
					p, q := cellForms(i), cellForms(i+1)
					for j := range p {
						c.st.addCons(linS(symOf(q[j])).sub(linS(symOf(p[j]))))
					}
				}
			}

			el := changes.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()

			var vs []Val

			for i := range c.st.gvList("variables") {
				t := append([]Val(nil), a.zeroVal(el).(Tup).fs...)
				for j := range t {
					switch ft := el.Underlying().(*types.Struct).Field(j).Type(); {
					case types.Identical(ft, s.variable):
						t[j] = Num{linC(int64(i))}
					default:
						t[j] = Flt{term: fmt.Sprint("v", i)}
					}
				}

				vs = append(vs, Tup{t})
			}

			return c.ret(c.st.newSlice(el, vs))
		case f.Pkg != nil && f.Pkg == changes.Pkg && len(f.Params) == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), s.variable):
			n := len(c.st.gvList("variables"))
			c.st.gvAdd("variables", Num{linC(int64(n))})
			count = max(count, n+1)

			return c.ret(Num{linC(int64(n))})
		}

		return false, nil
	}

	recv, _ := a.recv(split, st, Tup{v})
	outs := a.exec(split, st, recv, rv)

	if len(outs) == 0 {
		bad = append(bad, "it gives no result")
	}

	var shape []string

	for _, o := range outs {
		if o.panic {
			bad = append(bad, "it panics")
			continue
		}

		segs, gaps, why := s.areas(o.st, o.vals, dir.Name() == "DirectionHorizontal", area, len(kinds), count)
		if why != "" {
			shape = append(shape, why)
			continue
		}

		bad = append(bad, s.match(o.st, s.expected(segs, gaps, dir.Name() == "DirectionHorizontal", area, flex.Name(), gap, kinds, values))...)
	}

	a.notesFail("undecided")

	if os.Getenv("ANALYZER_DEBUG") != "" {
		fmt.Println(what, len(outs), "paths", time.Since(began))

	}

	shape, bad = dedup(shape), dedup(bad)
	s.c.want(len(shape) == 0, "areas returned", what, at, strings.Join(shape, "; "))
	s.c.want(len(bad) == 0, "constraints stated", what, at, strings.Join(bad, "; "))
}

func dedup(xs []string) []string {
	sort.Strings(xs)
	return uniqStrings(xs)
}

// walkField reads the field of a struct.
func (x *Interp) walkField(st *State, v Val, t types.Type, name string) Val {
	return x.walk(st, v, t, []int{fieldIdx(t, name)})
}

var kept = map[string]relation{}

// keep names a relation, to be kept with a state.
func (s *layouts) keep(r relation) string {
	k := r.key() + " @"
	if r.weight != nil {
		k += r.weight.RatString()
	}

	kept[k] = r

	return k
}

// read is the relation that a constraint states.
func (s *layouts) read(st *State, v Val) (relation, string) {
	p, ok := v.(Ptr)
	if !ok {
		return relation{}, "a constraint that is not known"
	}

	data := st.at(p)
	t := st.heap[p.obj].typ
	r := relation{vars: map[int]real{}}

	str, ok := t.Underlying().(*types.Struct)
	if !ok {
		return r, "a constraint that is not a struct"
	}

	for i := 0; i < str.NumFields(); i++ {
		f := s.ai.walk(st, data, t, []int{i})

		switch ft := str.Field(i).Type(); {
		case types.Identical(ft, s.strength):
			fl, _ := f.(Flt)

			w, ok := s.ai.realOf(fl).isConst()
			if !ok {
				return r, "a strength that is not constant"
			}

			r.weight = w
		case types.Identical(ft, s.operator):
			n, ok := numOf(f).isConst()
			if !ok {
				return r, "a relation that is not known"
			}

			for _, k := range s.p.constsOf(s.operator) {
				if k.Val().ExactString() == fmt.Sprint(n) {
					r.op = map[string]string{
						"RelationOperatorEqual": "=", "RelationOperatorLessThanEqual": "<=", "RelationOperatorGreaterThanEqual": ">=",
					}[k.Name()]
				}
			}
		case types.Identical(ft, s.expr):
			es, _ := ft.Underlying().(*types.Struct)

			for j := 0; j < es.NumFields(); j++ {
				e := s.ai.walk(st, f, ft, []int{j})

				if fl, ok := e.(Flt); ok {
					r.c = s.ai.realOf(fl)
					continue
				}

				terms, ok := st.elemsOf(e)
				if !ok {
					return r, "an expression of an unknown number of terms"
				}

				for _, m := range terms {
					var (
						at  = -1
						fac real
					)

					ts, _ := s.term.Underlying().(*types.Struct)
					for k := 0; k < ts.NumFields(); k++ {
						e := s.ai.walk(st, m, s.term, []int{k})
						if types.Identical(ts.Field(k).Type(), s.variable) {
							if n, ok := numOf(e).isConst(); ok {
								at = int(n)
							}
						} else if fl, ok := e.(Flt); ok {
							fac = s.ai.realOf(fl)
						}
					}

					if at < 0 {
						return r, "a term of an unknown variable"
					}

					r.vars[at] = r.vars[at].add(fac)
				}
			}
		}
	}

	switch r.op {
	case "":
		return r, "a constraint without a relation"
	case ">=":
		r.op, r.c = "<=", r.c.neg()
		for k, v := range r.vars {
			r.vars[k] = v.neg()
		}
	}

	return r, ""
}

// cellForms names the cell that a variable's value is rounded to: that of
// hundredths, which may be rounded before.
func cellForms(i int) []string {
	var out []string

	v := realAtom(fmt.Sprint("v", i))
	hundredth := realC(big.NewRat(1, 100))

	for _, f := range []real{
		realAtom("math.Round(" + v.key() + ")").mul(hundredth),
		v.mul(hundredth),
	} {
		out = append(out,
			"int(math.Round("+f.key()+"))", "int(math.RoundToEven("+f.key()+"))",
			"int(math.Floor("+f.add(realC(big.NewRat(1, 2))).key()+"))")
	}

	return out
}

// areas decides that the areas returned are those between variables, rounded
// to cells, and which variables these are.
func (s *layouts) areas(st *State, vals []Val, horizontal bool, area rectL, n, count int) (segs, gaps [][2]int, why string) {
	type cellOf struct {
		v int
		l Lin
	}

	var cells []cellOf

	for i := 0; i < count; i++ {
		for _, f := range cellForms(i) {
			if sym, ok := symByName[f]; ok {
				cells = append(cells, cellOf{i, linS(sym)})
			}
		}
	}

	var list [2][]Val

	for i, what := range []string{"segments", "gaps"} {
		es, ok := st.elemsOf(vals[i])
		if !ok || len(es) != n+i {
			return nil, nil, fmt.Sprintf("%d %s are returned instead of %d", len(es), what, n+i)
		}

		list[i] = es
	}

	// gaps and segments by turns
	var (
		names  []string
		starts []cellOf
		sizes  []Lin
	)

	for i := 0; i < 2*n+1; i++ {
		v, name := list[1-i%2][i/2], fmt.Sprint([]string{"gap ", "segment "}[i%2], i/2)
		r := s.ai.rectOf(st, v)
		pos, size, across, breadth := r.x, r.w, r.y, r.h
		wantAcross, wantBreadth := area.y, area.h

		if !horizontal {
			pos, size, across, breadth = r.y, r.h, r.x, r.w
			wantAcross, wantBreadth = area.x, area.w
		}

		if !st.provesEQ(across.sub(wantAcross)) || !st.provesEQ(breadth.sub(wantBreadth)) {
			return nil, nil, name + " does not span the area in the other direction"
		}

		found := false

		for _, c := range cells {
			if c.l.eq(pos) {
				starts, found = append(starts, c), true
				break
			}
		}

		if !found {
			return nil, nil, fmt.Sprintf("%s does not start at a variable rounded to a cell but at %s", name, pos)
		}

		names, sizes = append(names, name), append(sizes, size)
	}

	// each ends where the next one starts
	between := func(start, end, size Lin) bool {
		ok := true

		st.split(bGE(end.sub(start)), func(st *State, v bool) {
			if v {
				ok = ok && st.provesEQ(size.sub(end).add(start))
			} else {
				ok = ok && st.provesEQ(size)
			}
		})

		return ok
	}

	used := map[int]bool{}

	for i, c := range starts {
		used[c.v] = true

		if i+1 < len(starts) && !between(c.l, starts[i+1].l, sizes[i]) {
			return nil, nil, fmt.Sprintf("%s does not end where %s starts: its size is %s", names[i], names[i+1], sizes[i])
		}
	}

	last := len(starts) - 1
	end := -1

	for _, c := range cells {
		if !used[c.v] && between(starts[last].l, c.l, sizes[last]) {
			end = c.v
			break
		}
	}

	if end < 0 {
		return nil, nil, fmt.Sprintf("%s does not end at a variable rounded to a cell: its size is %s", names[last], sizes[last])
	}

	for i, c := range starts {
		e := end
		if i < last {
			e = starts[i+1].v
		}

		if i%2 == 0 {
			gaps = append(gaps, [2]int{c.v, e})
		} else {
			segs = append(segs, [2]int{c.v, e})
		}
	}

	return segs, gaps, ""
}

// expected are the constraints of a layout.
func (s *layouts) expected(segs, gaps [][2]int, horizontal bool, area rectL, flex string, gap real, kinds []layoutKind, values []map[string]real) []relation {
	var out []relation

	add := func(prio int, what string, a side, op string, b side) {
		out = append(out, compare(prio, what, a, op, b))
	}

	hundred := realI(100)
	start, end := gaps[0][0], gaps[len(gaps)-1][1]
	whole := sizeOf(start, end)
	first, last := area.x, area.right()

	if !horizontal {
		first, last = area.y, area.bottom()
	}

	add(prioBounds, "the start of the area", varSide(start), "=", constSide(realLin(first).mul(hundred)))
	add(prioBounds, "the end of the area", varSide(end), "=", constSide(realLin(last).mul(hundred)))

	seen := map[int]bool{}

	for _, g := range append(append([][2]int(nil), gaps...), segs...) {
		for _, v := range g {
			if !seen[v] {
				seen[v] = true

				add(prioBounds, fmt.Sprintf("that v%d is not before the area", v), varSide(v), ">=", varSide(start))
				add(prioBounds, fmt.Sprintf("that v%d is not behind the area", v), varSide(v), "<=", varSide(end))
			}
		}
	}

	for i, g := range segs {
		add(prioBounds, fmt.Sprintf("that segment %d ends behind its start", i), varSide(g[0]), "<=", varSide(g[1]))
	}

	// the gaps
	size := func(g [2]int) side { return sizeOf(g[0], g[1]) }
	between := constSide(gap.mul(hundred))
	inner := [][2]int(nil)
	outer := [2]side{size(gaps[0]), size(gaps[len(gaps)-1])}
	none := constSide(nil)

	if len(gaps) > 2 {
		inner = gaps[1 : len(gaps)-1]
	}

	pairs := func(gs [][2]int) {
		for i := range gs {
			for j := i + 1; j < len(gs); j++ {
				add(prioGap, "that gaps are equal", size(gs[i]), "=", size(gs[j]))
			}
		}
	}

	grow := func(gs [][2]int) {
		for _, g := range gs {
			add(prioGap, "the least size of a gap", size(g), ">=", between)
			add(prioSpace, "the growth of a gap", size(g), "=", whole)
		}
	}

	switch flex {
	case "FlexSpaceAround":
		pairs(gaps)
		grow(gaps)
	case "FlexSpaceBetween":
		pairs(inner)
		grow(inner)
	default:
		for _, g := range inner {
			add(prioGap, "the size of a gap", size(g), "=", between)
		}
	}

	if len(gaps) >= 2 {
		empty := func(i int) { add(prioOuter, "an empty outer gap", outer[i], "=", none) }
		grows := func(i int) { add(prioGrow, "the growth of an outer gap", outer[i], "=", whole) }

		switch flex {
		case "FlexLegacy", "FlexSpaceBetween":
			empty(0)
			empty(1)
		case "FlexStart":
			empty(0)
			grows(1)
		case "FlexEnd":
			grows(0)
			empty(1)
		case "FlexCenter":
			grows(0)
			grows(1)
			add(prioGap, "that the outer gaps are equal", outer[0], "=", outer[1])
		}
	}

	// the segments
	for i, k := range kinds {
		n := values[i]["n"]
		z := size(segs[i])
		what := func(s string) string { return fmt.Sprintf("%s of segment %d", s, i) }

		switch k.name {
		case "ConstraintMax":
			add(prioMinMax, what("the maximum"), z, "<=", constSide(n.mul(hundred)))
			add(prioTarget, what("the target"), z, "=", constSide(n.mul(hundred)))
		case "ConstraintMin":
			add(prioMinMax, what("the minimum"), z, ">=", constSide(n.mul(hundred)))

			if flex == "FlexLegacy" {
				add(prioTarget, what("the target"), z, "=", constSide(n.mul(hundred)))
			} else {
				add(prioFill, what("the growth"), z, "=", whole)
			}
		case "ConstraintLen":
			add(prioLength, what("the length"), z, "=", constSide(n.mul(hundred)))
		case "ConstraintPercentage":
			add(prioPercentage, what("the percentage"), z, "=", whole.times(n.mul(realC(big.NewRat(1, 100)))))
		case "ConstraintRatio":
			add(prioRatio, what("the ratio"), z, "=", whole.times(n))
		case "ConstraintFill":
			add(prioFill, what("the growth"), z, "=", whole)
		}
	}

	scale := func(i int) (real, bool) {
		switch kinds[i].name {
		case "ConstraintFill":
			return values[i]["n"], true
		case "ConstraintMin":
			return realI(1), flex != "FlexLegacy"
		}

		return nil, false
	}

	for i := range segs {
		for j := i + 1; j < len(segs); j++ {
			a, ok1 := scale(i)
			b, ok2 := scale(j)

			if ok1 && ok2 {
				add(prioGrow, fmt.Sprintf("the proportion of the segments %d and %d", i, j), size(segs[i]).times(b), "=", size(segs[j]).times(a))
			}
		}
	}

	if flex != "FlexLegacy" {
		for i := 0; i+1 < len(segs); i++ {
			add(prioEqual, fmt.Sprintf("that the segments %d and %d are equal", i, i+1), size(segs[i]), "=", size(segs[i+1]))
		}
	}

	return out
}

// match decides that the constraints stated are those expected, and notes
// their weights.
func (s *layouts) match(st *State, want []relation) []string {
	var bad []string

	wants, has := map[string][]relation{}, map[string][]relation{}
	known := map[string]real{}

	for _, n := range s.unknowns {
		if l := linS(symOf(n)); st.provesEQ(l) {
			known[n] = realI(0)
		} else if st.provesEQ(l.addConst(-1)) {
			known[n] = realI(1)
		}
	}

	for _, r := range want {
		r = r.with(known)
		if k := r.key(); k != "" {
			wants[k] = append(wants[k], r)
		}
	}

	for _, v := range st.gvList("stated") {
		r := kept[v.(Opq).term].with(known)
		if k := r.key(); k != "" && r.weight != nil {
			has[k] = append(has[k], r)
		}
	}

	for k, ws := range wants {
		hs := has[k]
		sort.SliceStable(ws, func(i, j int) bool { return ws[i].prio < ws[j].prio })
		sort.SliceStable(hs, func(i, j int) bool { return hs[i].weight.Cmp(hs[j].weight) > 0 })

		if ws[0].prio == prioBounds {
			// once is enough
			ws, hs = ws[:1], hs[:min(1, len(hs))]
		}

		for i, w := range ws {
			if i >= len(hs) {
				bad = append(bad, fmt.Sprintf("no constraint states %s: %s", w.what, k))
				continue
			}

			m := s.weights[w.prio]
			if m == nil {
				m = map[string]*big.Rat{}
				s.weights[w.prio] = m
			}

			m[hs[i].weight.RatString()] = hs[i].weight
		}

		for _, h := range hs[min(len(hs), len(ws)):] {
			bad = append(bad, fmt.Sprintf("%s is stated more often than needed, with the weight %s", k, h.weight.RatString()))
		}
	}

	for k, hs := range has {
		if wants[k] == nil {
			bad = append(bad, fmt.Sprintf("a constraint of the weight %s is none of this layout: %s", hs[0].weight.RatString(), k))
		}
	}

	return bad
}

// order decides the order of the priorities.
func (s *layouts) order() {
	at := s.p.pos(s.p.methodOf(s.layout, "SplitWithSpacers").Pos())

	list := func(m map[string]*big.Rat) []*big.Rat {
		var out []*big.Rat
		for _, r := range m {
			out = append(out, r)
		}

		sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })

		return out
	}

	required, ok := new(big.Rat).SetString(s.p.constVal(solverDir, "Required").ExactString())
	if !ok {
		anchorf("Required is not a number")
	}

	for i := range priorities {
		ws := list(s.weights[i])
		if len(ws) == 0 {
			s.c.fail("order of priorities", priorities[i], at, "no constraint of this priority is stated")
			continue
		}

		if i == prioBounds {
			s.c.want(ws[0].Cmp(required) >= 0, "bounds are required", priorities[i], at, "stated with the weight "+ws[0].RatString())
			continue
		}

		high := ws[len(ws)-1]
		s.c.want(high.Cmp(required) < 0, "other constraints are not required", priorities[i], at, "stated with the weight "+high.RatString())
		s.c.want(high.Sign() > 0, "weights are positive", priorities[i], at, "stated with the weight "+high.RatString())

		if above := list(s.weights[i-1]); len(above) > 0 {
			s.c.want(above[0].Cmp(high) > 0, "order of priorities", fmt.Sprintf("%s above %s", priorities[i-1], priorities[i]), at,
				fmt.Sprintf("the weight %s of one does not exceed the weight %s of the other", above[0].RatString(), high.RatString()))
		}
	}
}
