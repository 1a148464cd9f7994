package main

import (
	"fmt"
	"go/types"
)

func init() {
	register("S05", checkS05)
}

// rect is a rectangle of symbols.
type rectL struct{ x, y, w, h Lin }

func (a *ai) rectType() types.Type { return a.p.named("", "Rect") }

// rectOf reads a rectangle.
func (a *ai) rectOf(st *State, v Val) rectL {
	t := a.rectType()
	get := func(name string) Lin {
		for _, l := range leaves(t) {
			n := l.name
			if i := lastDot(n); i >= 0 {
				n = n[i+1:]
			}

			if n == name {
				return numOf(st.leafOf(v, t, l))
			}
		}

		panic(anchorError{"Rect has no field " + name})
	}

	return rectL{get("X"), get("Y"), get("Width"), get("Height")}
}

func lastDot(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return i
		}
	}

	return -1
}

// newRect makes a rectangle of non-negative size.
func (a *ai) newRect(st *State, term string) (Val, rectL) {
	v := a.fresh(st, a.rectType(), term)
	r := a.rectOf(st, v)
	st.assume(bAnd(bGE(r.w), bGE(r.h)))

	return v, r
}

func (r rectL) right() Lin  { return r.x.add(r.w) }
func (r rectL) bottom() Lin { return r.y.add(r.h) }

// inside says that a position is in a rectangle.
func (r rectL) inside(px, py Lin) *bdd {
	lt := func(a, b Lin) *bdd { return bGE(b.sub(a).addConst(-1)) }
	le := func(a, b Lin) *bdd { return bGE(b.sub(a)) }

	return bAnd(bAnd(le(r.x, px), lt(px, r.right())), bAnd(le(r.y, py), lt(py, r.bottom())))
}

// insideAll lists the conditions that inside is made of.
func (r rectL) insideAll(px, py Lin) []*bdd {
	return []*bdd{bGE(px.sub(r.x)), bGE(r.right().sub(px).addConst(-1)), bGE(py.sub(r.y)), bGE(r.bottom().sub(py).addConst(-1))}
}

// implies decides that conditions hold in a state where the premises do.
func (st *State) implies(premises, conds []*bdd) bool {
	s := st.fork()
	for _, b := range premises {
		if !s.assume(b) {
			return true
		}
	}

	for _, b := range conds {
		if s.decide(b) != 1 {
			return false
		}
	}

	return true
}

func (r rectL) empty() *bdd { return bOr(bEQ(r.w), bEQ(r.h)) }

func (r rectL) eq(o rectL) *bdd {
	return bAnd(bAnd(bEQ(r.x.sub(o.x)), bEQ(r.y.sub(o.y))), bAnd(bEQ(r.w.sub(o.w)), bEQ(r.h.sub(o.h))))
}

func checkS05(c *Check) {
	p := c.prog("linux")
	rect := p.named("", "Rect")
	pos := p.named("", "Position")

	// each outcome of a method for a rectangle of symbols
	each := func(what, method string, args func(a *ai, st *State) []Val, decide func(a *ai, st *State, r rectL, args []Val, res Val) string) {
		fn := p.methodOf(rect, method)
		a := newAI(c, p)
		a.maxNodes = 500
		st := a.newState()
		rv, r := a.newRect(st, "rect")
		recv, _ := a.recv(fn, st, rv)

		var as []Val
		if args != nil {
			as = args(a, st)
		}

		outs := a.exec(fn, st, append([]Val{recv}, as...)...)
		if len(outs) == 0 {
			c.fail(what, fname(fn), p.pos(fn.Pos()), "the method gives no result")
			return
		}

		for _, o := range outs {
			why := ""
			if o.panic {
				why = "the method panics"
			} else {
				why = decide(a, o.st, r, as, o.vals[0])
			}

			c.want(why == "", what, fname(fn), p.pos(fn.Pos()), why)
		}

		a.notesFail("undecided")
	}

	holds := func(st *State, b *bdd, why string) string {
		if st.decide(b) == 1 {
			return ""
		}

		return why
	}

	implied := func(st *State, premises, conds []*bdd, why string) string {
		if st.implies(premises, conds) {
			return ""
		}

		return why
	}

	first := func(ws ...string) string {
		for _, w := range ws {
			if w != "" {
				return w
			}
		}

		return ""
	}

	num := func(name string, f func(r rectL) Lin) {
		each("edges and sizes", name, nil, func(a *ai, st *State, r rectL, _ []Val, res Val) string {
			return holds(st, bEQ(numOf(res).sub(f(r))), "the result is "+showVal(res))
		})
	}

	num("Left", func(r rectL) Lin { return r.x })
	num("Right", rectL.right)
	num("Top", func(r rectL) Lin { return r.y })
	num("Bottom", rectL.bottom)
	num("Area", func(r rectL) Lin {
		l, ok := mulLin(r.w, r.h)
		if !ok {
			panic("no product")
		}

		return l
	})

	each("edges and sizes", "IsEmpty", nil, func(a *ai, st *State, r rectL, _ []Val, res Val) string {
		return holds(st, bIff(boolOf(res), r.empty()), "a rectangle is empty if its width or its height is zero, and only then")
	})

	position := func(a *ai, st *State) (Val, Lin, Lin) {
		v := a.fresh(st, pos, "position")
		f := v.(Tup).fs

		return v, numOf(f[fieldIdx(pos, "X")]), numOf(f[fieldIdx(pos, "Y")])
	}

	var px, py Lin

	each("a position is in a rectangle", "Contains", func(a *ai, st *State) []Val {
		v, x, y := position(a, st)
		px, py = x, y

		return []Val{v}
	}, func(a *ai, st *State, r rectL, _ []Val, res Val) string {
		return first(
			holds(st, bImp(boolOf(res), r.inside(px, py)), "a position outside of the rectangle may be contained in it"),
			holds(st, bImp(r.inside(px, py), boolOf(res)), "a position inside of the rectangle may not be contained in it"))
	})

	var other rectL

	each("intersection", "Intersection", func(a *ai, st *State) []Val {
		v, o := a.newRect(st, "other")
		other = o
		_, px, py = position(a, st)

		return []Val{v}
	}, func(a *ai, st *State, r rectL, _ []Val, res Val) string {
		got := a.rectOf(st, res)

		return first(
			holds(st, bAnd(bGE(got.w), bGE(got.h)), "the size of the intersection may be negative"),
			implied(st, got.insideAll(px, py), append(r.insideAll(px, py), other.insideAll(px, py)...), "the intersection may contain a position that is not in both rectangles"),
			implied(st, append(r.insideAll(px, py), other.insideAll(px, py)...), got.insideAll(px, py), "the intersection may lack a position that is in both rectangles"))
	})

	pad := p.named("", "Padding")

	var side map[string]Lin

	each("inner area", "Inner", func(a *ai, st *State) []Val {
		v := a.fresh(st, pad, "padding")
		side = map[string]Lin{}

		for _, n := range []string{"Left", "Right", "Top", "Bottom"} {
			side[n] = numOf(v.(Tup).fs[fieldIdx(pad, n)])
			st.assume(bGE(side[n]))
		}

		return []Val{v}
	}, func(a *ai, st *State, r rectL, _ []Val, res Val) string {
		got := a.rectOf(st, res)
		w := r.w.sub(side["Left"]).sub(side["Right"])
		h := r.h.sub(side["Top"]).sub(side["Bottom"])
		fits := bAnd(bGE(w), bGE(h))
		want := rectL{r.x.add(side["Left"]), r.y.add(side["Top"]), w, h}

		return first(
			holds(st, bAnd(bGE(got.w), bGE(got.h)), "the size of the inner area may be negative"),
			holds(st, bImp(fits, got.eq(want)), "the inner area is not the area less the padding on each side"),
			holds(st, bImp(bNot(fits), got.empty()), "the inner area is not empty although the padding does not fit"))
	})

	var off Lin

	each("indentation", "IndentX", func(a *ai, st *State) []Val {
		off = linS(symOf("offset"))
		st.assume(bGE(off))

		return []Val{Num{off}}
	}, func(a *ai, st *State, r rectL, _ []Val, res Val) string {
		got := a.rectOf(st, res)
		w := r.w.sub(off)

		return first(
			holds(st, bGE(got.w), "the width may be negative"),
			holds(st, bAnd(bEQ(got.x.sub(r.x).sub(off)), bAnd(bEQ(got.y.sub(r.y)), bEQ(got.h.sub(r.h)))), "the left edge is not moved by the offset, or another one is moved"),
			holds(st, bImp(bGE(w), bEQ(got.w.sub(w))), "the right edge is moved"),
			holds(st, bImp(bGE(w.neg()), bEQ(got.w)), "the rectangle is not empty although the offset exceeds its width"))
	})

	// rows and columns, for each number of them up to a bound
	sizes := []int64{0, 1, 2, 3, 4, 5, 8, 13, 40}
	if c.tier == "thorough" {
		for i := int64(41); i <= 60; i++ {
			sizes = append(sizes, i)
		}
	}

	for _, k := range []struct {
		method string
		rows   bool
	}{{"Rows", true}, {"Columns", false}} {
		fn := p.methodOf(rect, k.method)

		for _, n := range sizes {
			a := newAI(c, p)
			st := a.newState()
			rv, r := a.newRect(st, "rect")

			size := "Height"
			if !k.rows {
				size = "Width"
			}

			rv.(Tup).fs[fieldIdx(rect, size)] = Num{linC(n)}

			if k.rows {
				r.h = linC(n)
			} else {
				r.w = linC(n)
			}

			recv, _ := a.recv(fn, st, rv)

			for _, o := range a.exec(fn, st, recv) {
				why := ""

				if o.panic {
					why = "the method panics"
				} else if es, ok := o.st.elemsOf(o.vals[0]); !ok {
					why = "the list of rectangles could not be determined"
				} else if int64(len(es)) != n {
					why = fmt.Sprintf("%d rectangles are enumerated", len(es))
				} else {
					for i, e := range es {
						got := a.rectOf(o.st, e)
						want := rectL{r.x, r.y.addConst(int64(i)), r.w, linC(1)}

						if !k.rows {
							want = rectL{r.x.addConst(int64(i)), r.y, linC(1), r.h}
						}

						if why == "" {
							why = holds(o.st, got.eq(want), fmt.Sprintf("rectangle %d is not the one at offset %d", i, i))
						}
					}
				}

				c.want(why == "", "rows and columns", fmt.Sprintf("%s of %d", fname(fn), n), p.pos(fn.Pos()), why)
			}

			a.notesFail("undecided")
		}
	}

	c.atLeast("rows and columns", 18)
	c.atLeast("intersection", 1)
	c.assume("positions and sizes do not overflow; rows and columns are enumerated by loops that treat each index alike, decided for the sizes listed and symbolic position and extent")
}
