package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// subjects lists the ways the receiver of a drawing function is made: any
// value, unless how much is drawn depends on lists whose lengths are then
// enumerated.
func (c *Check) subjects(p *Prog, fn *ssa.Function) []subject {
	t := deref(recvType(fn))

	switch {
	case types.Identical(t, p.named(blockDir, "Block")):
		return c.blocks(p)
	case types.Identical(t, p.named(scrollDir, "Scroll")):
		return c.scrolls(p)
	case types.Identical(t, p.named(gaugeDir, "Gauge")):
		return c.gauges(p)
	case types.Identical(t, p.named(listDir, "List")):
		return c.lists(p, fn)
	}

	return []subject{{name: "", make: func(b *painter, st *State) (*State, Val, []Val) {
		return st, b.widget(st, t), nil
	}}}
}

// blocks have up to three titles of one kind, or one of each.
func (c *Check) blocks(p *Prog) []subject {
	var out []subject

	aligns := []string{"AlignmentLeft", "AlignmentCenter", "AlignmentRight"}
	positions := []string{"TitlePositionTop", "TitlePositionBottom"}

	type title struct{ pos, align int }

	add := func(set int, titles ...title) {
		name := sidesName(set)
		for _, t := range titles {
			name += fmt.Sprintf(", a title at %s, %s", positions[t.pos], aligns[t.align])
		}

		out = append(out, subject{name: name, exact: true, make: func(b *painter, st *State) (*State, Val, []Val) {
			st, v := b.make(st, "New")
			st, v = b.apply(st, v, "WithBorderSides", b.sides(st, set))

			for i, t := range titles {
				tt := p.named(blockDir, "Title")
				tb := &builder{b.bufAI, blockDir, tt}

				lt := p.named("widget/textwidget", "Line")
				line := b.fresh(st, lt, fmt.Sprintf("title%d", i))
				b.sane(st, line, lt)

				var title Val
				st, title = tb.make(st, "NewTitle", line)
				st, title = tb.apply(st, title, "WithPosition", b.constant(blockDir, positions[t.pos]))
				st, title = tb.apply(st, title, "WithAlignment", b.constant("", aligns[t.align]))
				st, v = b.apply(st, v, "WithTitle", title)
			}

			return st, v, nil
		}})
	}

	for set := 0; set < 16; set++ {
		add(set)
	}

	most := 2
	if c.tier == "thorough" {
		most = 3
	}

	for _, set := range []int{0, 2, 8, 15} {
		for pos := range positions {
			for al := range aligns {
				var ts []title
				for i := 0; i < most; i++ {
					ts = append(ts, title{pos, al})
					if i > 0 || c.tier == "thorough" || set == 15 {
						add(set, ts...)
					}
				}
			}
		}
	}

	return out
}

const scrollDir = "widget/scrollwidget"

// scrolls are in areas of chosen sizes.
func (c *Check) scrolls(p *Prog) []subject {
	var out []subject

	most := int64(3)
	if c.tier == "thorough" {
		most = 6
	}

	t := p.named(scrollDir, "Scroll")

	for _, o := range []string{"OrientationVerticalRight", "OrientationVerticalLeft", "OrientationHorizontalBottom", "OrientationHorizontalTop"} {
		for w := int64(0); w <= most; w++ {
			for h := int64(0); h <= most; h++ {
				out = append(out, subject{name: fmt.Sprintf("%s, %dx%d", o, w, h), sized: true, w: w, h: h, make: func(b *painter, st *State) (*State, Val, []Val) {
					b.narrow = true
					v := b.fresh(st, t, "widget")
					v = b.setField(v, t, p.named(scrollDir, "Orientation"), b.constant(scrollDir, o))

					return st, v, nil
				}})
			}
		}
	}

	return out
}

const gaugeDir = "widget/gaugewidget"

// gauges are partly or completely filled.
func (c *Check) gauges(p *Prog) []subject {
	var out []subject

	t := p.named(gaugeDir, "Gauge")

	bare := false

	one := func(name string, unicode bool, method string, arg func(b *painter, st *State) Val) {
		bare := bare
		out = append(out, subject{name: name, make: func(b *painter, st *State) (*State, Val, []Val) {
			b.bare = bare
			v := b.widget(st, t)

			var outs []Outcome

			for _, o := range b.run(p.methodOf(t, method), []Val{v, arg(b, st)}, nil, st, nil, nil, false) {
				if !o.st.infeasible() {
					outs = append(outs, o)
				}
			}

			st, v = b.only(st, method, outs)
			st, v = b.apply(st, v, "WithUnicode", Boo{bddConst(unicode)})

			return st, v, nil
		}})
	}

	add := func(name, method string, arg func(b *painter, st *State) Val) {
		one(name, false, method, arg)
		one(name+", in eighths", true, method, arg)
	}

	add("less than full", "WithRatio", func(b *painter, st *State) Val {
		return Flt{term: "ratio", lo: lp(linC(0)), hi: lp(linC(1)), open: true}
	})
	add("full", "WithRatio", func(b *painter, st *State) Val { return Flt{term: "c1", lo: lp(linC(1)), hi: lp(linC(1))} })
	bare = true

	add("less than 100%", "WithPercent", func(b *painter, st *State) Val {
		n := linS(symOf("percent"))
		st.addCons(n)
		st.addCons(n.addConst(-99).neg())

		return Num{n}
	})
	add("100%", "WithPercent", func(b *painter, st *State) Val { return Num{linC(100)} })

	return out
}

const listDir = "widget/listwidget"

// lists have a few items of any heights.
func (c *Check) lists(p *Prog, fn *ssa.Function) []subject {
	var out []subject

	t, state := p.named(listDir, "List"), p.named(listDir, "State")
	item := p.named("widget/textwidget", "Text")

	const most = 2

	add := func(n int, direction string, padding int, more func(b *painter, st *State) []Val, name string) {
		name = fmt.Sprintf("%d items, %s, scroll padding %d%s", n, direction, padding, name)
		out = append(out, subject{name: name, exact: true, make: func(b *painter, st *State) (*State, Val, []Val) {
			b.bare = n == most && c.tier != "thorough"
			v := b.widget(st, t)

			var items []Val

			for i := 0; i < n; i++ {
				it := b.fresh(st, item, fmt.Sprintf("item%d", i))
				b.sane(st, it, item)
				items = append(items, it)
			}

			st, v = b.apply(st, v, "WithItems", st.newSlice(item, items))
			st, v = b.apply(st, v, "WithDirection", b.constant(listDir, direction))
			spacing := []string{"HighlightSpacingAlways", "HighlightSpacingNever"}[b.choose("highlight spacing", 2)]
			st, v = b.apply(st, v, "WithHighlightSpacing", b.constant(listDir, spacing))
			st, v = b.apply(st, v, "WithScrollPadding", Num{linC(int64(padding))})

			return st, v, more(b, st)
		}})
	}

	for n := 0; n <= most; n++ {
		for _, d := range []string{"DirectionTopToBottom", "DirectionBottomToTop"} {
			if fn.Signature.Params().Len() == 2 {
				add(n, d, 0, func(*painter, *State) []Val { return nil }, "")
				continue
			}

			for padding := 0; padding < most; padding++ {
				for offset := 0; offset <= n; offset++ {
					for selected := -1; selected <= n; selected++ {
						// beyond the last item is the same as at the last one
						if n == most && offset == n && selected >= 0 && c.tier != "thorough" {
							continue
						}

						name := fmt.Sprintf(", offset %d", offset)
						if selected >= 0 {
							name += fmt.Sprintf(", %d selected", selected)
						}

						add(n, d, padding, func(b *painter, st *State) []Val {
							sb := &builder{b.bufAI, listDir, state}
							v := b.zeroVal(state)
							id := st.newVar(state, v, "state")
							ptr := Ptr{obj: id, nil_: bddFalse}
							sb.change(st, ptr, "SetOffset", Num{linC(int64(offset))})

							if selected >= 0 {
								sb.change(st, ptr, "Select", Num{linC(int64(selected))})
							}

							return []Val{ptr}
						}, name)
					}
				}
			}
		}
	}

	return out
}

// change calls a method that changes a value in place.
func (b *builder) change(st *State, v Val, method string, args ...Val) {
	outs := live(b.run(b.p.methodOf(types.NewPointer(b.typ), method), append([]Val{v}, args...), nil, st, nil, nil, false))
	if len(outs) != 1 || outs[0].panic {
		panic(fmt.Sprintf("%s has %d outcomes", method, len(outs)))
	}

	*st = *outs[0].st
}
