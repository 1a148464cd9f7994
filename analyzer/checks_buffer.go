package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B01", checkB01)
	register("B02", checkB02)
}

// bufAI follows buffers.
type bufAI struct {
	*ai
	buf, cell, pos      types.Type
	areaIdx, contentIdx int
}

func newBufAI(c *Check, p *Prog) *bufAI {
	b := &bufAI{ai: newAI(c, p)}
	b.buf, b.cell, b.pos = p.named("", "Buffer"), p.named("", "Cell"), p.named("", "Position")
	b.areaIdx, b.contentIdx = -1, -1

	s := b.buf.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), b.rectType()) && b.areaIdx < 0 {
			b.areaIdx = i
		}

		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), b.cell) && b.contentIdx < 0 {
			b.contentIdx = i
		}
	}

	if b.areaIdx < 0 || b.contentIdx < 0 {
		panic(anchorError{"Buffer has no area and list of cells"})
	}

	return b
}

// newBuffer makes a well-formed buffer of a symbolic area.
func (b *bufAI) newBuffer(st *State, term string) (Ptr, rectL, Slc) {
	v := b.fresh(st, b.buf, term)
	rv, r := b.newRect(st, term+".area")
	content := v.(Tup).fs[b.contentIdx].(Slc)

	size, ok := mulLin(r.w, r.h)
	if !ok {
		panic("no product")
	}

	content.len = size
	content.nil_ = bddFalse
	content.off = linC(0)
	st.assume(bAnd(bGE(size), bGE(content.cap.sub(size))))

	fs := append([]Val(nil), v.(Tup).fs...)
	fs[b.areaIdx], fs[b.contentIdx] = rv, content
	id := st.newVar(b.buf, Tup{fs}, term)

	return Ptr{obj: id, nil_: bddFalse}, r, content
}

// fixedRect makes a rectangle of a given size somewhere.
func (a *ai) fixedRect(st *State, term string, w, h int64) Val {
	t := a.rectType()
	v := a.fresh(st, t, term)
	fs := append([]Val(nil), v.(Tup).fs...)
	fs[fieldIdx(t, "Width")] = Num{linC(w)}
	fs[fieldIdx(t, "Height")] = Num{linC(h)}

	return Tup{fs}
}

func (b *bufAI) newPos(st *State, term string) (Val, Lin, Lin) {
	v := b.fresh(st, b.pos, term)
	return v, numOf(v.(Tup).fs[fieldIdx(b.pos, "X")]), numOf(v.(Tup).fs[fieldIdx(b.pos, "Y")])
}

func (b *bufAI) posL(v Val) (Lin, Lin) {
	return numOf(v.(Tup).fs[fieldIdx(b.pos, "X")]), numOf(v.(Tup).fs[fieldIdx(b.pos, "Y")])
}

func checkB01(c *Check) {
	p := c.prog("linux")

	wellFormed := func(b *bufAI, st *State, v Val) string {
		t, ok := st.at(v).(Tup)
		if !ok {
			return "the buffer could not be determined"
		}

		r := b.rectOf(st, t.fs[b.areaIdx])

		s, ok := t.fs[b.contentIdx].(Slc)
		if !ok {
			return "its cells could not be determined"
		}

		size, _ := mulLin(r.w, r.h)
		if !st.provesEQ(s.len.sub(size)) {
			return "it may not have one cell for each position of its area: " + s.len.String() + " of " + size.String()
		}

		return ""
	}

	// constructors, for every size
	for _, name := range []string{"NewBufferEmpty", "NewBufferFilled"} {
		fn := p.fn("", name)
		b := newBufAI(c, p)
		st := b.newState()
		rv, r := b.newRect(st, "area")
		args := []Val{rv}

		for i := 1; i < len(fn.Params); i++ {
			args = append(args, b.param(fn, st, i, "arg"))
		}

		for _, o := range b.exec(fn, st, args...) {
			why := ""
			if o.panic {
				why = "it panics"
			} else if why = wellFormed(b, o.st, o.vals[0]); why == "" {
				got := b.rectOf(o.st, o.st.at(o.vals[0]).(Tup).fs[b.areaIdx])
				if o.st.decide(got.eq(r)) != 1 {
					why = "its area is not the one requested"
				}
			}

			c.want(why == "", "one cell for each position", name, p.pos(fn.Pos()), why)
		}

		b.notesFail("undecided")
	}

	// resizing, for every size
	{
		fn := p.methodOf(p.named("", "Buffer"), "Resize")
		b := newBufAI(c, p)
		st := b.newState()
		b.maxNodes = 100
		ptr, _, _ := b.newBuffer(st, "buffer")
		rv, r := b.newRect(st, "new")

		for _, o := range b.exec(fn, st, ptr, rv) {
			why := ""
			if o.panic {
				why = "it panics"
			} else if why = wellFormed(b, o.st, ptr); why == "" {
				got := b.rectOf(o.st, o.st.at(ptr).(Tup).fs[b.areaIdx])
				if o.st.decide(got.eq(r)) != 1 {
					why = "its area is not the one requested"
				}
			}

			c.want(why == "", "one cell for each position", fname(fn), p.pos(fn.Pos()), why)
		}

		b.notesFail("undecided")
	}

	// positions and cells
	cellAt := p.methodOf(p.named("", "Buffer"), "CellAt")
	posOf := p.methodOf(p.named("", "Buffer"), "PosOf")

	for _, in := range []bool{true, false} {
		b := newBufAI(c, p)
		b.maxNodes = 200
		st := b.newState()
		ptr, r, content := b.newBuffer(st, "buffer")
		pv, px, py := b.newPos(st, "position")

		try := func(st *State, what string) {
			indexed := false

			b.hooks.index = func(fr *Frame, st *State, i ssa.Instruction, k, n Lin) {
				if b.quiet > 0 || st.infeasible() {
					return
				}

				indexed = true

				if in && !(st.proves(k) && st.proves(n.sub(k).addConst(-1))) {
					c.fail("access within the buffer", fname(fr.fn), p.pos(instrPos(i)), "the index "+k.String()+" may be outside of the "+n.String()+" cells", fr.path(p)...)
				}
			}

			for _, o := range b.exec(cellAt, st, ptr, pv) {
				if o.st.infeasible() {
					continue
				}

				why := ""

				switch {
				case in && o.panic:
					why = "it panics for a position inside of the area"
				case !in && !o.panic:
					why = "a position outside of the area (" + what + ") gives a cell"
				case in:
					row, _ := mulLin(py.sub(r.y), r.w)
					q, ok := o.vals[0].(Ptr)

					if !ok || q.idx == nil || q.obj != content.obj || !o.st.provesEQ(q.idx.sub(row.add(px.sub(r.x)))) {
						why = "the cell of a position is not the one in its row and column"
						if ok && q.idx != nil {
							why += ": " + q.idx.String()
						}

						break
					}

					// and back
					for _, o2 := range b.exec(posOf, o.st, ptr, Num{*q.idx}) {
						if o2.panic {
							if !o2.st.infeasible() {
								why = "the position of a cell can not be determined"
							}

							continue
						}

						x, y := b.posL(o2.vals[0])
						if o2.st.provesEQ(y.sub(py)) {
							// and so are its multiples
							if d, ok := mulLin(y.sub(py), r.w); ok {
								o2.st.addCons(d)
								o2.st.addCons(d.neg())
							}
						}

						if !o2.st.provesEQ(x.sub(px)) || !o2.st.provesEQ(y.sub(py)) {
							why = "the position of the cell of a position is another one: " + x.String() + ", " + y.String()
						}
					}
				}

				c.want(why == "", "position and cell", fname(cellAt)+" "+what, p.pos(cellAt.Pos()), why)
			}

			if in && !indexed {
				c.fail("position and cell", fname(cellAt)+" "+what, p.pos(cellAt.Pos()), "no cell is accessed")
			}

			b.notesFail("undecided")
		}

		if in {
			for _, f := range r.insideAll(px, py) {
				st.assume(f)
			}

			// which follows, but products need it in this form
			st.assume(bAnd(bGE(r.w.addConst(-1)), bGE(r.h.addConst(-1))))
			try(st, "inside")

			continue
		}

		for i, f := range r.insideAll(px, py) {
			s := st.fork()
			s.assume(bNot(f))
			try(s, []string{"left of it", "right of it", "above it", "below it"}[i])
		}
	}

	// indices
	{
		b := newBufAI(c, p)
		b.maxNodes = 200
		st := b.newState()
		ptr, r, content := b.newBuffer(st, "buffer")
		k := linS(symOf("index"))
		s := st.fork()
		s.assume(bAnd(bGE(k), bGE(content.len.sub(k).addConst(-1))))
		s.assume(bAnd(bGE(r.w.addConst(-1)), bGE(r.h.addConst(-1))))

		for _, o := range b.exec(posOf, s, ptr, Num{k}) {
			why := ""
			if o.panic {
				if !o.st.infeasible() {
					why = "it panics for the index of a cell"
				}
			} else {
				x, y := b.posL(o.vals[0])

				row, ok := mulLin(y.sub(r.y), r.w)
				if !ok || !o.st.provesEQ(row.add(x.sub(r.x)).sub(k)) {
					why = "the position of a cell is not the one with its index: " + x.String() + ", " + y.String()
				} else {
					for _, f := range r.insideAll(x, y) {
						if o.st.decide(f) != 1 {
							why = "the position of a cell may be outside of the area"
						}
					}
				}
			}

			c.want(why == "", "position and cell", fname(posOf), p.pos(posOf.Pos()), why)
		}

		s = st.fork()
		s.assume(bGE(k.sub(content.len)))

		for _, o := range b.exec(posOf, s, ptr, Num{k}) {
			c.want(o.panic || o.st.infeasible(), "position and cell", fname(posOf)+" of no cell", p.pos(posOf.Pos()), "an index that is not of a cell gives a position")
		}

		b.notesFail("undecided")
	}

	// the cells that the constructors and resizing give, for each size up to a bound
	empty := func(b *bufAI, st *State) Val {
		return live(b.run(p.fn("", "NewEmptyCell"), nil, nil, st, nil, nil, false))[0].vals[0]
	}

	for _, n := range [][4]int64{{0, 0, 0, 0}, {1, 1, 1, 2}, {2, 2, 1, 3}, {3, 1, 3, 2}, {2, 3, 4, 2}, {0, 3, 2, 2}, {4, 2, 0, 5}, {1, 4, 2, 2}} {
		b := newBufAI(c, p)
		st := b.newState()

		mk := func(name string, w, h int64) Val {
			return b.fixedRect(st, name, w, h)
		}

		first, second := mk("area", n[0], n[1]), mk("new", n[2], n[3])
		filled := p.fn("", "NewBufferFilled")
		cell := b.fresh(st, b.cell, "cell")
		name := fmt.Sprintf("%dx%d", n[0], n[1])

		for _, o := range b.exec(filled, st, first, cell) {
			s := o.st
			id := s.newVar(b.buf, s.at(o.vals[0]), "buffer")
			ptr := Ptr{obj: id, nil_: bddFalse}

			es, ok := s.elemsOf(s.at(ptr).(Tup).fs[b.contentIdx])
			why := ""

			if !ok || int64(len(es)) != n[0]*n[1] {
				why = "its cells could not be determined"
			}

			for i, e := range es {
				if !s.deepSame(e, cell) {
					why = fmt.Sprintf("cell %d of a new buffer is not the one given", i)
				}
			}

			c.want(why == "", "cells of a new buffer", name, p.pos(filled.Pos()), why)

			resize := p.methodOf(p.named("", "Buffer"), "Resize")
			want := empty(b, s)

			for _, o := range b.exec(resize, s, ptr, second) {
				why := ""

				es2, ok := o.st.elemsOf(o.st.at(ptr).(Tup).fs[b.contentIdx])
				if o.panic || !ok || int64(len(es2)) != n[2]*n[3] {
					why = fmt.Sprintf("resized to %dx%d it has %d cells: %s %v", n[2], n[3], len(es2), showVal(o.st.at(ptr).(Tup).fs[b.contentIdx]), o.panic)
				}

				for i, e := range es2 {
					if i >= len(es) && !o.st.deepSame(e, want) {
						why = fmt.Sprintf("the new cell %d of a resized buffer is not empty: %s", i, showVal(e))
					}
				}

				c.want(why == "", "cells of a resized buffer", fmt.Sprintf("%s to %dx%d", name, n[2], n[3]), p.pos(resize.Pos()), why)
			}
		}

		b.notesFail("undecided")
	}

	c.atLeast("one cell for each position", 3)
	c.atLeast("position and cell", 7)
	c.atLeast("cells of a resized buffer", 8)
	c.assume("sizes are not negative and do not overflow")
}

// writes watches the cells of a buffer that are changed.
func (b *bufAI) contentIndex(content Slc, p Ptr) (Lin, bool) {
	if p.obj != content.obj || p.idx == nil {
		if p.obj == content.obj && strings.HasPrefix(p.path, "/") {
			if k, err := strconv.ParseInt(strings.SplitN(p.path[1:], "/", 2)[0], 10, 64); err == nil {
				return linC(k), true
			}
		}

		return Lin{}, false
	}

	return *p.idx, true
}

func checkB02(c *Check) {
	p := c.prog("linux")
	buffer := p.named("", "Buffer")
	style := p.named("", "Style")
	setN, set := p.methodOf(buffer, "SetStringN"), p.methodOf(buffer, "SetString")
	setStyle := p.methodOf(p.named("", "Cell"), "SetStyle")

	type scene struct {
		*bufAI
		g       *graphemes
		st      *State
		ptr     Ptr
		r       rectL
		content Slc
		x, y    Lin
		max     Lin
		style   Val
	}

	newScene := func(limited bool) *scene {
		s := &scene{bufAI: newBufAI(c, p)}
		s.maxNodes = 3000
		s.g = &graphemes{x: s.Interp, widths: map[string]int64{}}
		s.hooks.call = s.g.call
		s.st = s.newState()
		s.ptr, s.r, s.content = s.newBuffer(s.st, "buffer")
		s.x, s.y = linS(symOf("x")), linS(symOf("y"))
		s.style = s.fresh(s.st, style, "style")

		st := s.st
		// the start is on a line of the buffer, not left of it
		st.assume(bAnd(bGE(s.x.sub(s.r.x)), bAnd(bGE(s.y.sub(s.r.y)), bGE(s.r.bottom().sub(s.y).addConst(-1)))))

		if limited {
			s.max = linS(symOf("maxWidth"))
			st.assume(bGE(s.max))
		}

		row, ok := mulLin(s.y.sub(s.r.y), s.r.w)
		if !ok {
			panic("no product")
		}

		s.hooks.store = func(fr *Frame, st *State, in ssa.Instruction, q Ptr, _ Val) {
			if s.quiet > 0 || q.obj != s.content.obj {
				return
			}

			k, ok := s.contentIndex(s.content, q)
			at := k.sub(row).add(s.r.x)

			why := ""

			switch {
			case !ok:
				why = "the cell that is changed could not be determined"
			case st.infeasible():
			case !st.proves(at.sub(s.x)):
				why = "a cell before the given column or line may be changed"
			case !st.proves(s.r.right().sub(at).addConst(-1)):
				why = "a cell past the right edge of the buffer may be changed"
			case limited && !st.proves(s.x.add(s.max).sub(at).addConst(-1)):
				why = "a cell past the maximum width may be changed"
			}

			c.want(why == "", "cells changed are within the limits", fname(fr.fn), p.pos(instrPos(in)), why, fr.path(p)...)
		}

		s.hooks.index = func(fr *Frame, st *State, in ssa.Instruction, i, n Lin) {
			if s.quiet == 0 && !st.infeasible() && n.eq(s.content.len) && !(st.proves(i) && st.proves(n.sub(i).addConst(-1))) {
				c.fail("cells changed are within the limits", fname(fr.fn), p.pos(instrPos(in)), "the access may be outside of the buffer", fr.path(p)...)
			}
		}

		return s
	}

	// any string
	for _, fn := range []*ssa.Function{setN, set} {
		s := newScene(fn == setN)
		s.maxNodes = 64
		args := []Val{s.ptr, Num{s.x}, Num{s.y}, Str{[]strPart{{term: "value"}}}}

		if fn == setN {
			args = append(args, Num{s.max})
		}

		for _, o := range s.exec(fn, s.st, append(args, s.style)...) {
			if o.panic && !o.st.infeasible() {
				c.fail("cells changed are within the limits", fname(fn), p.pos(fn.Pos()), "it may panic")
			}
		}

		c.ok("cells changed are within the limits", fname(fn), p.pos(fn.Pos()))
		s.notesFail("undecided")
	}

	// strings of up to three graphemes of each width
	var seqs [][]int64

	var rec func(pre []int64)
	rec = func(pre []int64) {
		seqs = append(seqs, append([]int64(nil), pre...))

		if len(pre) < 3 {
			for w := int64(0); w <= 2; w++ {
				rec(append(pre, w))
			}
		}
	}
	rec(nil)

	seqs = append(seqs, []int64{3}, []int64{1, 4, 1}, []int64{2, 1, 1, 2, 0, 1})

	for _, seq := range seqs {
		s := newScene(true)

		s.peel = len(seq) + 1

		var text Str

		for i, w := range seq {
			g := cluster(fmt.Sprint(i))
			s.g.widths[g.parts[0].term] = w
			text = text.cat(g)
		}

		name := strings.Trim(fmt.Sprint(seq), "[]")
		st := s.st
		row, _ := mulLin(s.y.sub(s.r.y), s.r.w)

		old := map[string]Val{}
		cellAt := func(st *State, x Lin) Val {
			return st.elem(s.content.obj, row.add(x).sub(s.r.x))
		}

		total := int64(0)
		for _, w := range seq {
			total += w
		}

		for i := int64(0); i < total; i++ {
			v := cellAt(st, s.x.addConst(i))
			old[fmt.Sprint(i)] = v
			st.setElem(s.content.obj, row.add(s.x.addConst(i)).sub(s.r.x), v)
		}

		for _, o := range s.exec(setN, st, s.ptr, Num{s.x}, Num{s.y}, text, Num{s.max}, s.style) {
			if o.st.infeasible() {
				continue
			}

			if o.panic {
				c.fail("string is written", name, p.pos(setN.Pos()), "it may panic")
				continue
			}

			// what is expected, in each way the limits can be
			var follow func(st *State, i int, used int64)

			report := func(why string) {
				c.want(why == "", "string is written", "graphemes of width "+name, p.pos(setN.Pos()), why)
			}

			follow = func(st *State, i int, used int64) {
				if st.infeasible() {
					return
				}

				// there is room for one more column, and for the next grapheme
				room := func(n int64) *bdd {
					return bAnd(bGE(s.max.addConst(-used-n)), bGE(s.r.right().sub(s.x).addConst(-used-n)))
				}

				end := func(st *State) {
					x, y := numOf(o.vals[0]), numOf(o.vals[1])
					if !st.provesEQ(x.sub(s.x).addConst(-used)) || !st.provesEQ(y.sub(s.y)) {
						report("the position returned is not the one after the last cell written: " + x.String() + ", " + y.String() + fmt.Sprintf(" after %d cells", used))
						return
					}

					for k := used; k < total; k++ {
						if !st.deepSame(cellAt(st, s.x.addConst(k)), old[fmt.Sprint(k)]) {

							report(fmt.Sprintf("the cell %d columns after the start is changed although only %d are written", k, used))
							return
						}
					}

					report("")
				}

				if i == len(seq) {
					end(st)
					return
				}

				w := seq[i]

				st.split(room(max(w, 1)), func(st *State, fits bool) {
					if st.infeasible() {
						return
					}

					if w == 0 {
						// skipped, with or without room
						follow(st, i+1, used)
						return
					}

					if !fits {
						end(st)
						return
					}

					at := s.x.addConst(used)
					got := cellAt(st, at)

					t := st.fork()
					sym := old[fmt.Sprint(used)].(Tup)
					fs := append([]Val(nil), sym.fs...)
					fs[fieldIdx(s.cell, "Symbol")] = cluster(fmt.Sprint(i))
					id := t.newVar(s.cell, Tup{fs}, "cell")
					s.hooks.store, s.hooks.index = nil, nil

					for _, oc := range s.exec(setStyle, t, Ptr{obj: id, nil_: bddFalse}, s.style) {
						if !oc.st.deepSame(got, oc.st.at(Ptr{obj: id, nil_: bddFalse})) {
							report(fmt.Sprintf("the cell of grapheme %d is %s", i, showVal(got)))
							return
						}
					}

					for k := int64(1); k < w; k++ {
						e := cellAt(st, at.addConst(k))
						t := st.fork()

						for _, oc := range s.exec(p.fn("", "NewEmptyCell"), t) {
							if !oc.st.deepSame(e, oc.vals[0]) {
								report(fmt.Sprintf("cell %d that grapheme %d covers is not emptied: %s", k, i, showVal(e)))
								return
							}
						}
					}

					follow(st, i+1, used+w)
				})
			}

			follow(o.st, 0, 0)
		}

		s.notesFail("undecided")
	}

	c.atLeast("string is written", 43)
	c.atLeast("cells changed are within the limits", 4)
	c.assume("a string is written from a column that is not left of the buffer, on one of its lines; the limits hold for any string, the cells' contents are decided for each sequence of up to three graphemes of width 0, 1 and 2 and some longer ones: the loop treats graphemes alike")
}
