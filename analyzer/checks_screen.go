package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// attribute is a text attribute with the parameters that turn it on and off.
type attribute struct {
	name    string // constant of the modifier
	on, off int
	bit     int
}

func attributes(p *Prog) []attribute {
	as := []attribute{
		{"ModifierBold", 1, 22, 0}, {"ModifierDim", 2, 22, 0}, {"ModifierItalic", 3, 23, 0}, {"ModifierUnderlined", 4, 24, 0},
		{"ModifierSlowBlink", 5, 25, 0}, {"ModifierRapidBlink", 6, 25, 0}, {"ModifierReversed", 7, 27, 0}, {"ModifierHidden", 8, 28, 0},
		{"ModifierCrossedOut", 9, 29, 0},
	}

	seen := map[int]bool{}

	for i := range as {
		v, err := strconv.Atoi(p.constVal("", as[i].name).ExactString())
		if err != nil || v <= 0 || v&(v-1) != 0 {
			anchorf("%s is not a single bit", as[i].name)
		}

		for v > 1 {
			v >>= 1
			as[i].bit++
		}

		if seen[as[i].bit] {
			anchorf("%s shares its bit", as[i].name)
		}

		seen[as[i].bit] = true
	}

	return as
}

// drawing interprets DefaultBackend.Draw for a list of cells, in front of a
// model of the terminal.
type drawing struct {
	*outp
	attrs []attribute
	cells []drawnCell
	bad   map[string]bool
	probs []string
}

type drawnCell struct {
	x, y   Lin
	fg, bg Val
	mod    BV
	width  int64
}

func (d *drawing) problem(st *State, why string) {
	if !d.bad[why] {
		d.bad[why] = true
		d.probs = append(d.probs, why)
	}
}

func (d *drawing) opq(st *State, k string) string {
	o, _ := st.gv[k].(Opq)
	return o.term
}

func (d *drawing) isOn(st *State, a attribute) bool {
	return strings.Contains(d.opq(st, "attrs"), ","+a.name+",")
}

func (d *drawing) setAttr(st *State, a attribute, on bool) {
	var on2 []string

	for _, b := range d.attrs {
		if b == a && on || b != a && d.isOn(st, b) {
			on2 = append(on2, b.name)
		}
	}

	d.setAttrs(st, on2)
}

func (d *drawing) setAttrs(st *State, names []string) {
	st.setGV("attrs", Opq{"," + strings.Join(names, ",") + ","})
}

func (d *drawing) reset(st *State) {
	d.setAttrs(st, nil)
	st.setGV("fg", Opq{"default"})
	st.setGV("bg", Opq{"default"})
}

func (d *drawing) token(st *State, t outTok) {
	switch t.final {
	case 0:
		for _, p := range t.text.parts {
			d.print(st, Str{[]strPart{p}})
		}
	case 'H', 'f':
		ps := params(t.text)
		for len(ps) < 2 {
			ps = append(ps, Str{})
		}

		row, ok1 := paramNum(ps[0])
		col, ok2 := paramNum(ps[1])

		if !ok1 || !ok2 || len(ps) != 2 {
			d.problem(st, "the cursor is moved to "+t.text.String())
			return
		}

		st.setGV("cx", Num{col.addConst(-1)})
		st.setGV("cy", Num{row.addConst(-1)})
	case 'm':
		d.sgr(st, params(t.text))
	default:
		d.problem(st, "a sequence that is neither a move nor a change of style is written: "+t.text.String()+string(t.final))
	}
}

func (d *drawing) sgr(st *State, ps []Str) {
	for i := 0; i < len(ps); i++ {
		s := ps[i]

		if len(s.parts) == 1 && s.parts[0].term != "" {
			if k, ok := strings.CutPrefix(s.parts[0].term, "fg="); ok {
				st.setGV("fg", Opq{k})
				continue
			}

			if k, ok := strings.CutPrefix(s.parts[0].term, "bg="); ok {
				st.setGV("bg", Opq{k})
				continue
			}
		}

		k, ok := s.constant()
		if !ok {
			d.problem(st, "an unknown style is written: "+s.String())
			return
		}

		n := 0

		if k != "" {
			var err error
			if n, err = strconv.Atoi(k); err != nil {
				d.problem(st, "an unknown style is written: "+k)
				return
			}
		}

		switch {
		case n == 0:
			d.reset(st)
			continue
		case n == 39:
			st.setGV("fg", Opq{"default"})
			continue
		case n == 49:
			st.setGV("bg", Opq{"default"})
			continue
		}

		hit := false

		for _, a := range d.attrs {
			if a.on == n {
				hit = true
				d.setAttr(st, a, true)
			}

			if a.off == n {
				hit = true
				d.setAttr(st, a, false)
			}
		}

		if !hit {
			d.problem(st, fmt.Sprintf("an attribute that no modifier stands for is written: %d", n))
		}
	}
}

func (d *drawing) print(st *State, s Str) {
	n, _ := constInt(st.gv["printed"])
	if int(n) >= len(d.cells) {
		d.problem(st, "more is printed than the cells: "+s.String())
		return
	}

	c := d.cells[n]

	if len(s.parts) != 1 || s.parts[0].term != fmt.Sprintf("symbol%d", n) {
		d.problem(st, fmt.Sprintf("%s is printed in place of the symbol of cell %d", s, n))
		return
	}

	x, ok1 := st.gv["cx"].(Num)
	y, ok2 := st.gv["cy"].(Num)

	if !ok1 || !ok2 || !st.provesEQ(x.l.sub(c.x)) || !st.provesEQ(y.l.sub(c.y)) {
		d.problem(st, fmt.Sprintf("cell %d of %d is not printed at its position", n, len(d.cells)))
	}

	for k, want := range map[string]Val{"fg": c.fg, "bg": c.bg} {
		if !d.colourOk(st, d.opq(st, k), want, k, int(n)) {
			d.problem(st, fmt.Sprintf("cell %d of %d is not printed with its %s colour", n, len(d.cells), k))
		}
	}

	for _, a := range d.attrs {
		want := st.decide(c.mod.bits[a.bit])
		if want < 0 || (want == 1) != d.isOn(st, a) {
			d.problem(st, fmt.Sprintf("cell %d of %d is printed with %s=%v, which is not what its modifier says", n, len(d.cells), a.name, d.isOn(st, a)))
		}
	}

	st.setGV("cx", Num{c.x.addConst(c.width)})
	st.setGV("cy", Num{c.y})
	st.setGV("printed", Num{linC(n + 1)})
}

// colourOk decides that the terminal's colour is that of a cell: the converted
// one, or the default if there is none.
func (d *drawing) colourOk(st *State, now string, want Val, which string, upTo int) bool {
	// matches is the condition on which the current colour stands for v.
	matches := func(v Val) *bdd {
		if i, ok := v.(Ifc); ok && i.typ != nil && isNamed(i.typ, pkgPath(""), "ResetColor") && now == "default" {
			return bddTrue
		}

		conv := d.converted(v)
		if now == conv.term {
			return bddTrue
		}

		if now != "default" {
			return bddFalse
		}

		// "default" stands for a colour without a sequence
		none := conv.nil_

		for _, a := range bddSupport(st.facts) {
			k := atoms[a].key
			if strings.HasPrefix(k, "type("+conv.term+")=") && strings.HasSuffix(k, "termenv.NoColor") {
				none = bOr(none, bddVar(a))
			}
		}

		return none
	}

	// A colour stands for another if they are equal.
	t := d.p.named("", "ResetColor")
	cands := []Val{d.resetColor()}

	for _, c := range d.cells[:upTo] {
		if which == "fg" {
			cands = append(cands, c.fg)
		} else {
			cands = append(cands, c.bg)
		}
	}

	cands = append(cands, want)

	var stands []*bdd

	for i, v := range cands {
		good := matches(v)

		for k, w := range cands[:i] {
			good = bOr(good, bAnd(d.equal(st, v, w, t), stands[k]))
		}

		stands = append(stands, good)
	}

	return st.decide(stands[len(stands)-1]) == 1
}

func (d *drawing) resetColor() Val {
	t := d.p.named("", "ResetColor")
	return Ifc{nil_: bddFalse, typ: t, val: d.zeroVal(t)}
}

func newDrawing(c *Check, p *Prog, cells []drawnCell) *drawing {
	d := &drawing{outp: newOutp(c, p), attrs: attributes(p), cells: cells, bad: map[string]bool{}}
	d.screen = d.token

	return d
}

// draw gives the first problem.
func (d *drawing) draw(pre func(st *State)) string {
	ct, pt := d.p.named("", "Cell"), d.p.named("", "PositionedCell")

	outs := d.onBackend("Draw", func(st *State) []Val {
		var es []Val

		for i, c := range d.cells {
			cell := Tup{append([]Val(nil), d.fresh(st, ct, fmt.Sprintf("cell%d", i)).(Tup).fs...)}
			cell.fs[fieldIdx(ct, "Symbol")] = Str{[]strPart{{term: fmt.Sprintf("symbol%d", i)}}}
			cell.fs[fieldIdx(ct, "Fg")] = c.fg
			cell.fs[fieldIdx(ct, "Bg")] = c.bg
			cell.fs[fieldIdx(ct, "Modifier")] = c.mod

			pc := Tup{make([]Val, pt.Underlying().(*types.Struct).NumFields())}
			pc.fs[fieldIdx(pt, "Cell")] = cell
			pc.fs[fieldIdx(pt, "Position")] = posVal(d.p, Num{c.x}, Num{c.y})
			es = append(es, pc)
		}

		st.gv = nil
		d.reset(st)
		st.setGV("printed", Num{linC(0)})

		if pre != nil {
			pre(st)
		}

		return []Val{st.newSlice(pt, es)}
	})

	done := 0

	for _, o := range outs {
		if o.panic {
			d.problem(o.st, "it may panic")
			continue
		}

		if errOf(o) != 0 {
			d.problem(o.st, "it may fail although everything was written")
			continue
		}

		done++

		if n, _ := constInt(o.st.gv["printed"]); int(n) != len(d.cells) {
			d.problem(o.st, fmt.Sprintf("only %d of %d cells are printed", n, len(d.cells)))
		}

		if _, ok := o.st.gv["overtaken"]; ok {
			d.problem(o.st, "output is written past the buffer")
		}

		if d.opq(o.st, "attrs") != ",," || d.opq(o.st, "fg") != "default" || d.opq(o.st, "bg") != "default" {
			d.problem(o.st, "colours or attributes are not reset after the last cell")
		}
	}

	for n := range d.notes {
		d.problem(nil, "the interpreter could not follow: "+n)
	}

	if done == 0 {
		d.problem(nil, "it never succeeds")
	}

	if len(d.probs) == 0 {
		return ""
	}

	return d.probs[0]
}

func modBits(f func(bit int) *bdd) BV {
	v := BV{make([]*bdd, 16)}
	for i := range v.bits {
		v.bits[i] = f(i)
	}

	return v
}

func noBits(int) *bdd { return bddFalse }

func (d *drawing) colour(n string) Val {
	return Ifc{nil_: nilAtom(n), term: n}
}

func checkT03(c *Check) {
	p := c.prog("linux")
	fn := p.methodOf(types.NewPointer(p.named("", "DefaultBackend")), "Draw")
	pos := p.pos(fn.Pos())
	atoms := attributes(p)

	cell := func(i int, pos, col bool, mod BV) drawnCell {
		r := drawnCell{x: linC(int64(i)), y: linC(0), mod: mod, width: 1}
		if pos {
			r.x, r.y = linS(symOf(fmt.Sprintf("cell%d.x", i))), linS(symOf(fmt.Sprintf("cell%d.y", i)))
		}

		reset := p.named("", "ResetColor")
		r.fg = Ifc{nil_: bddFalse, typ: reset, val: newAI(c, p).zeroVal(reset)}
		r.bg = r.fg

		if col {
			r.fg = Ifc{nil_: nilAtom(fmt.Sprintf("fg%d", i)), term: fmt.Sprintf("fg%d", i)}
			r.bg = Ifc{nil_: nilAtom(fmt.Sprintf("bg%d", i)), term: fmt.Sprintf("bg%d", i)}
		}

		return r
	}

	run := func(name string, cells []drawnCell, pre func(st *State)) {
		d := newDrawing(c, p, cells)
		why := d.draw(pre)
		c.want(why == "", "cells are printed where and as they are", name, pos, why)
	}

	none := modBits(noBits)

	run("no cells", nil, nil)
	run("one cell", []drawnCell{cell(0, true, true, none)}, nil)
	run("three cells anywhere", []drawnCell{cell(0, true, false, none), cell(1, true, false, none), cell(2, true, false, none)}, nil)
	run("three cells of any colours", []drawnCell{cell(0, false, true, none), cell(1, false, true, none), cell(2, false, true, none)}, nil)

	wide := []drawnCell{cell(0, true, false, none), cell(1, true, false, none)}
	wide[0].width = 2
	run("after a wide cell", wide, func(st *State) {
		// the cell after a wide one is not printed
		st.assume(bNot(bAnd(bEQ(wide[1].x.sub(wide[0].x).addConst(-1)), bEQ(wide[1].y.sub(wide[0].y)))))
	})

	for _, a := range atoms {
		m := func(i int) BV {
			return modBits(func(b int) *bdd {
				if b == a.bit {
					return bddVar(atomOf(fmt.Sprintf("mod%d.%d", i, b)))
				}

				return bddFalse
			})
		}

		run("two cells anywhere, of any colours and "+a.name, []drawnCell{cell(0, true, true, m(0)), cell(1, true, true, m(1))}, nil)
		run("three cells with "+a.name, []drawnCell{cell(0, false, false, m(0)), cell(1, false, false, m(1)), cell(2, false, false, m(2))}, nil)
	}

	c.atLeast("cells are printed where and as they are", 23)
	c.assume("a symbol of width w moves the cursor by w, and the cell behind a wide one is not in the list (Buffer.Diff)")
	c.assume("the loop of Draw carries the position, the colours and the modifier from one cell to the next: three cells show what happens for any list")
}

func checkT05(c *Check) {
	p := c.prog("linux")
	fn := p.methodOf(types.NewPointer(p.named("", "DefaultBackend")), "Draw")
	pos := p.pos(fn.Pos())
	as := attributes(p)
	reset := p.named("", "ResetColor")
	col := Ifc{nil_: bddFalse, typ: reset, val: newAI(c, p).zeroVal(reset)}

	run := func(name string, free map[int]bool, others *bdd) {
		var cells []drawnCell

		for i := 0; i < 2; i++ {
			cells = append(cells, drawnCell{x: linC(int64(i)), y: linC(0), fg: col, bg: col, width: 1, mod: modBits(func(b int) *bdd {
				if free[b] {
					return bddVar(atomOf(fmt.Sprintf("mod%d.%d", i, b)))
				}

				for _, a := range as {
					if a.bit == b {
						return others
					}
				}

				return bddFalse
			})})
		}

		d := newDrawing(c, p, cells)
		why := d.draw(nil)
		c.want(why == "", "switching modifiers", name, pos, why)
	}

	for i := range as {
		for j := i + 1; j < len(as); j++ {
			run(as[i].name+", "+as[j].name+", all others on", map[int]bool{as[i].bit: true, as[j].bit: true}, bddTrue)

			for k := j + 1; k < len(as); k++ {
				run(as[i].name+", "+as[j].name+", "+as[k].name, map[int]bool{as[i].bit: true, as[j].bit: true, as[k].bit: true}, bddFalse)
			}
		}
	}

	c.atLeast("switching modifiers", 36+84)
	c.assume("attributes interact in groups of at most three")
}
