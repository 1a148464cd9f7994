package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("W06", checkW06)
}

const blockDir = "widget/blockwidget"

// builder makes values through the exported methods of a type.
type builder struct {
	*bufAI
	dir string
	typ types.Type
}

func newBuilder(c *Check, p *Prog, dir, name string) *builder {
	return &builder{newBufAI(c, p), dir, p.named(dir, name)}
}

// only is the only outcome of a call.
func (b *builder) only(st *State, what string, outs []Outcome) (*State, Val) {
	outs = live(outs)
	if len(outs) != 1 || outs[0].panic || len(outs[0].vals) != 1 {
		panic(fmt.Sprintf("%s has %d outcomes", what, len(outs)))
	}

	return outs[0].st, outs[0].vals[0]
}

// apply calls a method that returns a changed value.
func (b *builder) apply(st *State, v Val, method string, args ...Val) (*State, Val) {
	return b.only(st, method, b.run(b.p.methodOf(b.typ, method), append([]Val{v}, args...), nil, st, nil, nil, false))
}

func (b *builder) make(st *State, fn string, args ...Val) (*State, Val) {
	return b.only(st, fn, b.run(b.p.fn(b.dir, fn), args, nil, st, nil, nil, false))
}

func (b *builder) constant(dir, name string) Val {
	k := b.p.constVal(dir, name)
	t := b.p.pkg(dir).Pkg.Scope().Lookup(name).Type()

	return b.goConst(k, t.Underlying().(*types.Basic), t)
}

// setField replaces the first field of a type in a struct.
func (b *builder) setField(v Val, t, field types.Type, to Val) Val {
	s := t.Underlying().(*types.Struct)
	fs := append([]Val(nil), v.(Tup).fs...)

	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), field) {
			fs[i] = to
			return Tup{fs}
		}
	}

	panic(anchorError{typeName(t) + " has no " + typeName(field)})
}

var sideNames = []string{"Top", "Right", "Bottom", "Left"}

// sides makes the list of border sides of a set.
func (b *builder) sides(st *State, set int) Val {
	t := b.p.named(blockDir, "Side")

	var vs []Val

	for i, n := range sideNames {
		if set&(1<<i) != 0 {
			vs = append(vs, b.constant(blockDir, "Side"+n))
		}
	}

	if len(vs) == 0 {
		vs = append(vs, b.constant(blockDir, "SideNone"))
	}

	return st.newSlice(t, vs)
}

func sidesName(set int) string {
	var ns []string

	for i, n := range sideNames {
		if set&(1<<i) != 0 {
			ns = append(ns, strings.ToLower(n))
		}
	}

	if len(ns) == 0 {
		return "no border"
	}

	return "borders " + strings.Join(ns, ", ")
}

func checkW06(c *Check) {
	p := c.prog("linux")
	c.innerOfBlocks(p)
	c.bordersOfBlocks(p)
	c.innerOfScrolls(p)
}

func (c *Check) innerOfBlocks(p *Prog) {
	// titles: the position each has, -1: none of its own
	var titles [][]int

	titles = append(titles, nil)
	for i := -1; i < 2; i++ {
		titles = append(titles, []int{i})
		for j := -1; j < 2; j++ {
			titles = append(titles, []int{i, j})
		}
	}

	positions := []string{"TitlePositionTop", "TitlePositionBottom"}
	fn := p.methodOf(p.named(blockDir, "Block"), "Inner")
	padding := p.named("", "Padding")

	for def := range positions {
		for _, ts := range titles {
			for set := 0; set < 16; set++ {
				if len(ts) == 2 && set&(1|4) == 1|4 {
					continue
				}

				b := newBuilder(c, p, blockDir, "Block")
				st := b.newState()
				st, v := b.make(st, "New")
				st, v = b.apply(st, v, "WithBorderSides", b.sides(st, set))
				st, v = b.apply(st, v, "WithTitlePosition", b.constant(blockDir, positions[def]))

				pv := b.fresh(st, padding, "padding")
				pad := map[string]Lin{}

				for _, n := range sideNames {
					l := numOf(pv.(Tup).fs[fieldIdx(padding, n)])
					st.assume(bGE(l))
					pad[n] = l
				}

				st, v = b.apply(st, v, "WithPadding", pv)

				name := sidesName(set)
				has := [2]bool{}

				for i, t := range ts {
					tt := p.named(blockDir, "Title")
					title := b.fresh(st, tt, fmt.Sprintf("title%d", i))
					title = b.setField(title, tt, types.NewPointer(p.named(blockDir, "TitlePosition")), Ptr{nil_: bddTrue})
					at := def
					name += ", a title"

					if t >= 0 {
						at = t
						tb := &builder{b.bufAI, blockDir, tt}
						st, title = tb.apply(st, title, "WithPosition", b.constant(blockDir, positions[t]))
						name += " at " + positions[t]
					}

					has[at] = true

					outs := live(b.run(p.methodOf(b.typ, "WithTitle"), []Val{v, title}, nil, st, nil, nil, false))
					if len(outs) == 0 {
						panic("WithTitle has no outcome")
					}

					st, v = outs[0].st, outs[0].vals[0]
				}

				if len(ts) > 0 {
					name += ", by default " + positions[def]
				}

				one := func(side int, also bool) Lin {
					if set&(1<<side) != 0 || also {
						return linC(1)
					}

					return linC(0)
				}

				rv, r := b.newRect(st, "area")
				top, bottom := one(0, has[0]).add(pad["Top"]), one(2, has[1]).add(pad["Bottom"])
				left, right := one(3, false).add(pad["Left"]), one(1, false).add(pad["Right"])
				outs := b.exec(fn, st, v, rv)

				for _, o := range outs {
					if o.panic {
						c.want(o.st.infeasible(), "inner area", name, p.pos(fn.Pos()), "it panics")
						continue
					}

					g := b.rectOf(o.st, o.vals[0])
					why := ""

					axis := func(what, start string, at, size, rat, rsize, before, after Lin) {
						rest := rsize.sub(before).sub(after)

						switch {
						case !o.st.proves(size):
							why = "the " + what + " may be negative"
						case !o.st.implies([]*bdd{bGE(rest)}, []*bdd{bEQ(size.sub(rest))}):
							why = "the " + what + " of the inner area is " + size.String() + " instead of " + rest.String()
						case !o.st.implies([]*bdd{bNot(bGE(rest))}, []*bdd{bEQ(size)}):
							why = "the " + what + " of the inner area is " + size.String() + " if nothing is left"
						case !o.st.implies([]*bdd{bGE(rest.addConst(-1))}, []*bdd{bEQ(at.sub(rat.add(before)))}):
							why = "the inner area starts at " + at.String() + " instead of " + rat.add(before).String() + " from the " + start
						}
					}

					axis("height", "top", g.y, g.h, r.y, r.h, top, bottom)
					axis("width", "left", g.x, g.w, r.x, r.w, left, right)

					c.want(why == "", "inner area", name, p.pos(fn.Pos()), why)
				}

				if len(outs) == 0 {
					c.fail("inner area", name, p.pos(fn.Pos()), "no outcome")
				}

				b.notesFail("undecided")
			}
		}
	}

	c.atLeast("inner area", 16*2*4)
}

// glyphs are the fields of a border set by where they belong.
type borderPart struct {
	field string
	sides int
}

var borderParts = []borderPart{
	{"HorizontalTop", 1}, {"VerticalRight", 2}, {"HorizontalBottom", 4}, {"VerticalLeft", 8},
	{"TopRight", 1 | 2}, {"BottomRight", 4 | 2}, {"BottomLeft", 4 | 8}, {"TopLeft", 1 | 8},
}

func (c *Check) bordersOfBlocks(p *Prog) {
	fn := p.methodOf(p.named(blockDir, "Block"), "Render")
	setT := p.named(blockDir, "BorderSet")
	sizes := [][2]int64{{1, 1}, {3, 1}, {1, 3}, {2, 2}, {4, 3}}

	if c.tier == "thorough" {
		sizes = nil
		for w := int64(1); w <= 5; w++ {
			for h := int64(1); h <= 5; h++ {
				sizes = append(sizes, [2]int64{w, h})
			}
		}
	}

	for set := 0; set < 16; set++ {
		for _, n := range sizes {
			w, h := n[0], n[1]
			b := newBuilder(c, p, blockDir, "Block")
			st := b.newState()
			st, v := b.make(st, "New")
			st, v = b.apply(st, v, "WithBorderSides", b.sides(st, set))

			glyphs := b.fresh(st, setT, "set")
			v = b.setField(v, b.typ, setT, glyphs)

			// a buffer one larger on each side
			area := b.fixedRect(st, "buffer", w+2, h+2)
			st, cell := b.only(st, "a cell", b.run(p.fn("", "NewEmptyCell"), nil, nil, st, nil, nil, false))
			st, buf := b.only(st, "a buffer", b.run(p.fn("", "NewBufferFilled"), []Val{area, cell}, nil, st, nil, nil, false))

			id := st.newVar(b.buf, st.at(buf), "buffer")
			ptr := Ptr{obj: id, nil_: bddFalse}

			r := b.rectOf(st, area)
			inner := b.fixedRect(st, "area", w, h)
			ir := b.rectOf(st, inner)
			st.addCons(ir.x.sub(r.x).addConst(-1))
			st.addCons(ir.x.sub(r.x).addConst(-1).neg())
			st.addCons(ir.y.sub(r.y).addConst(-1))
			st.addCons(ir.y.sub(r.y).addConst(-1).neg())
			inner = b.movedRect(inner, r.x.addConst(1), r.y.addConst(1))

			name := fmt.Sprintf("%s, %dx%d", sidesName(set), w, h)

			for _, o := range b.exec(fn, st, v, inner, ptr) {
				if o.panic {
					c.want(o.st.infeasible(), "borders", name, p.pos(fn.Pos()), "it panics")
					continue
				}

				es, ok := o.st.elemsOf(o.st.at(ptr).(Tup).fs[b.contentIdx])
				if !ok || int64(len(es)) != (w+2)*(h+2) {
					c.fail("borders", name, p.pos(fn.Pos()), "undecided: its cells could not be determined")
					continue
				}

				why := ""

				for i, e := range es {
					x, y := int64(i)%(w+2)-1, int64(i)/(w+2)-1
					on := 0

					if x >= 0 && x < w && y >= 0 && y < h {
						for k, at := range []bool{y == 0, x == w-1, y == h-1, x == 0} {
							if at {
								on |= 1 << k
							}
						}
					}

					var want, corners []Val

					for _, part := range borderParts {
						if part.sides&^(set&on) != 0 {
							continue
						}

						g := glyphs.(Tup).fs[fieldIdx(setT, part.field)]
						want = append(want, g)

						if part.sides&(part.sides-1) != 0 {
							corners = append(corners, g)
						}
					}

					if len(corners) > 0 {
						want = corners
					}

					if len(want) == 0 {
						want = []Val{cell.(Tup).fs[fieldIdx(b.cell, "Symbol")]}
					}

					got := e.(Tup).fs[fieldIdx(b.cell, "Symbol")]
					fine := false

					for _, g := range want {
						fine = fine || o.st.deepSame(got, g)
					}

					if !fine {
						why = fmt.Sprintf("the cell in column %d and row %d of the area has %s instead of %s", x, y, showVal(got), showVal(want[0]))
					}
				}

				c.want(why == "", "borders", name, p.pos(fn.Pos()), why)
			}

			b.notesFail("undecided")
		}
	}

	c.atLeast("borders", 16*len(sizes))
}

// movedRect puts a rectangle at a position.
func (a *ai) movedRect(v Val, x, y Lin) Val {
	t := a.rectType()
	pt := a.p.named("", "Position")
	fs := append([]Val(nil), v.(Tup).fs...)
	pf := append([]Val(nil), fs[fieldIdx(t, "Position")].(Tup).fs...)
	pf[fieldIdx(pt, "X")], pf[fieldIdx(pt, "Y")] = Num{x}, Num{y}
	fs[fieldIdx(t, "Position")] = Tup{pf}

	return Tup{fs}
}

func (c *Check) innerOfScrolls(p *Prog) {
	const dir = "widget/scrollwidget"

	fn := p.methodOf(p.named(dir, "Scroll"), "Inner")

	type side struct {
		name       string
		x, y, w, h int64
	}

	for _, o := range []side{
		{"OrientationVerticalRight", 0, 0, 1, 0},
		{"OrientationVerticalLeft", 1, 0, 1, 0},
		{"OrientationHorizontalBottom", 0, 0, 0, 1},
		{"OrientationHorizontalTop", 0, 1, 0, 1},
	} {
		for w := int64(0); w < 4; w++ {
			for h := int64(0); h < 4; h++ {
				b := newBuilder(c, p, dir, "Scroll")
				st := b.newState()
				v := b.fresh(st, b.typ, "scroll")
				v = b.setField(v, b.typ, p.named(dir, "Orientation"), b.constant(dir, o.name))
				area := b.fixedRect(st, "area", w, h)
				r := b.rectOf(st, area)
				name := fmt.Sprintf("%s, %dx%d", o.name, w, h)

				for _, out := range b.exec(fn, st, v, area) {
					why := ""

					if out.panic {
						why = "it panics"
					} else {
						g := b.rectOf(out.st, out.vals[0])

						gw, okW := g.w.isConst()
						gh, okH := g.h.isConst()

						switch {
						case !okW || !okH:
							why = "undecided: the size could not be determined"
						case gw < 0 || gh < 0:
							why = "the size is negative"
						case w <= o.w || h <= o.h:
							if gw != 0 && gh != 0 {
								why = "something is left of an area that has only room for the bar"
							}
						case gw != w-o.w || gh != h-o.h:
							why = fmt.Sprintf("it is %dx%d instead of %dx%d", gw, gh, w-o.w, h-o.h)
						case !out.st.provesEQ(g.x.sub(r.x).addConst(-o.x)) || !out.st.provesEQ(g.y.sub(r.y).addConst(-o.y)):
							why = "it does not start where the bar ends"
						}
					}

					c.want(why == "", "inner area of a scrollbar", name, p.pos(fn.Pos()), why)
				}

				b.notesFail("undecided")
			}
		}
	}

	c.atLeast("inner area of a scrollbar", 64)
}
