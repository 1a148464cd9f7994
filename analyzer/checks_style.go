package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S01", checkS01)
	register("S02", checkS02)
}

// styleInfo finds the parts of a style through its exported operations.
type styleInfo struct {
	typ      *types.Named
	fg, bg   int // fields
	add, sub int
}

func useBits(names ...string) {
	for _, n := range names {
		bvTypes[n] = true
	}
}

func findStyle(a *ai) styleInfo {
	p := a.p
	useBits(pkgPath("") + ".Modifier")

	si := styleInfo{typ: p.named("", "Style"), add: -1, sub: -1}
	si.fg, si.bg = fieldIdx(si.typ, "Foreground"), fieldIdx(si.typ, "Background")
	s := si.typ.Underlying().(*types.Struct)

	mod := p.named("", "Modifier")

	for k, name := range []string{"WithModifier", "WithoutModifier"} {
		fn := p.fn("", "Style."+name)
		st := a.newState()
		m := a.fresh(st, mod, "m")

		for _, o := range a.exec(fn, st, a.zeroVal(si.typ), m) {
			if o.panic {
				continue
			}

			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), mod) && o.st.same(o.vals[0].(Tup).fs[i], m) {
					if k == 0 {
						si.add = i
					} else {
						si.sub = i
					}
				}
			}
		}
	}

	if si.add < 0 || si.sub < 0 || si.add == si.sub {
		anchorf("the sets of added and removed modifiers of Style could not be told apart by WithModifier and WithoutModifier")
	}

	return si
}

// disjoint is a style that does not add and remove the same modifier: it
// removes what it would remove apart from what it adds.
func (si styleInfo) disjoint(v Val) Val {
	t := Tup{append([]Val(nil), v.(Tup).fs...)}
	t.fs[si.sub] = bvMap(func(b ...*bdd) *bdd { return bAnd(b[0], bNot(b[1])) }, t.fs[si.sub].(BV), t.fs[si.add].(BV))

	return t
}

func bvMap(f func(bits ...*bdd) *bdd, vs ...BV) BV {
	r := BV{make([]*bdd, len(vs[0].bits))}
	for i := range r.bits {
		var b []*bdd
		for _, v := range vs {
			b = append(b, v.bits[i])
		}

		r.bits[i] = f(b...)
	}

	return r
}

// colourOf is the interface inside a style colour.
func colourOf(v Val) (Ifc, bool) {
	for {
		switch w := v.(type) {
		case Ifc:
			return w, true
		case Tup:
			if len(w.fs) != 1 {
				return Ifc{}, false
			}

			v = w.fs[0]
		default:
			return Ifc{}, false
		}
	}
}

func checkS01(c *Check) {
	p := c.prog("linux")
	a := newAI(c, p)
	si := findStyle(a)
	mod := p.named("", "Modifier")
	styleField := func(v Val, i int) Val { return v.(Tup).fs[i] }

	each := func(fn *ssa.Function, outs []Outcome, do func(st *State, r Val)) {
		n := 0

		for _, o := range outs {
			if o.panic {
				c.fail("no panic", fname(fn), p.pos(fn.Pos()), "can panic")
				continue
			}

			n++

			do(o.st, o.vals[0])
		}

		if n == 0 {
			c.fail("no result", fname(fn), p.pos(fn.Pos()), "no path returns a style")
		}
	}

	bits := func(rule string, fn *ssa.Function, st *State, got Val, want BV) {
		c.want(st.same(got, want), rule, fname(fn), p.pos(fn.Pos()),
			fmt.Sprintf("the result has %s, expected %s", showVal(got), showVal(want)))
	}

	// Patched
	fn := p.fn("", "Style.Patched")
	st := a.newState()
	orig := si.disjoint(a.fresh(st, si.typ, "orig"))
	patch := si.disjoint(a.fresh(st, si.typ, "patch"))

	oa, os := styleField(orig, si.add).(BV), styleField(orig, si.sub).(BV)
	pa, ps := styleField(patch, si.add).(BV), styleField(patch, si.sub).(BV)
	keep := func(b ...*bdd) *bdd { // patch mine, patch other, orig mine
		return bOr(b[0], bAnd(b[2], bNot(b[1])))
	}

	each(fn, a.exec(fn, st, orig, patch), func(st *State, r Val) {
		bits("patch adds modifiers", fn, st, styleField(r, si.add), bvMap(keep, pa, ps, oa))
		bits("patch removes modifiers", fn, st, styleField(r, si.sub), bvMap(keep, ps, pa, os))

		for _, f := range []struct {
			i    int
			name string
		}{{si.fg, "foreground"}, {si.bg, "background"}} {
			pc, ok1 := colourOf(styleField(patch, f.i))
			rc, ok2 := colourOf(styleField(r, f.i))

			if !ok1 || !ok2 {
				c.fail("patch colours", f.name, p.pos(fn.Pos()), "the colour could not be followed")
				continue
			}

			st.split(pc.nil_, func(st *State, unset bool) {
				if unset {
					oc, _ := colourOf(styleField(orig, f.i))
					c.want(st.same(rc, oc), "patch keeps colours", f.name, p.pos(fn.Pos()), "without a colour in the patch the result has "+showVal(rc)+" instead of the original colour")
				} else {
					c.want(st.same(rc, pc), "patch sets colours", f.name, p.pos(fn.Pos()), "the result has "+showVal(rc)+" instead of the colour of the patch")
				}
			})
		}
	})

	// WithModifier, WithoutModifier
	for _, k := range []struct {
		name       string
		mine, othr int
	}{{"WithModifier", si.add, si.sub}, {"WithoutModifier", si.sub, si.add}} {
		fn := p.fn("", "Style."+k.name)
		st := a.newState()
		s := si.disjoint(a.fresh(st, si.typ, "s"))
		m := a.fresh(st, mod, "m").(BV)

		each(fn, a.exec(fn, st, s, m), func(st *State, r Val) {
			bits("modifier set", fn, st, styleField(r, k.mine), bvMap(func(b ...*bdd) *bdd { return bOr(b[0], b[1]) }, styleField(s, k.mine).(BV), m))
			bits("modifier not in the other set", fn, st, styleField(r, k.othr), bvMap(func(b ...*bdd) *bdd { return bAnd(b[0], bNot(b[1])) }, styleField(s, k.othr).(BV), m))
			c.want(st.same(styleField(r, si.fg), styleField(s, si.fg)) && st.same(styleField(r, si.bg), styleField(s, si.bg)), "colours kept", fname(fn), p.pos(fn.Pos()), "changes a colour")
		})
	}

	// every other exported method that returns a style keeps the sets disjoint
	for _, fn := range p.exportedMethods(si.typ) {
		res := fn.Signature.Results()
		if res.Len() != 1 || !types.Identical(res.At(0).Type(), si.typ) {
			continue
		}

		st := a.newState()
		s := si.disjoint(a.fresh(st, si.typ, "s"))
		args := []Val{s}

		for i := range fn.Params[1:] {
			v := a.param(fn, st, i+1, fmt.Sprintf("arg%d", i))
			if types.Identical(fn.Params[i+1].Type(), si.typ) {
				v = si.disjoint(v)
			}

			args = append(args, v)
		}

		each(fn, a.exec(fn, st, args...), func(st *State, r Val) {
			ad, su := styleField(r, si.add).(BV), styleField(r, si.sub).(BV)
			good := true

			for i := range ad.bits {
				if st.decide(bAnd(ad.bits[i], su.bits[i])) != 0 {
					good = false
				}
			}

			c.want(good, "added and removed modifiers are disjoint", fname(fn), p.pos(fn.Pos()), "the result may both add and remove a modifier")
		})
	}

	// the named shorthands
	for _, name := range []string{"Reversed", "CrossedOut", "Italic", "Bold", "Underlined", "Dim"} {
		fn := p.fn("", "Style."+name)
		st := a.newState()
		s := si.disjoint(a.fresh(st, si.typ, "s"))

		m := a.goConst(p.constVal("", "Modifier"+name), types.Typ[types.Uint16], mod).(BV)

		each(fn, a.exec(fn, st, s), func(st *State, r Val) {
			bits("shorthand adds its modifier", fn, st, styleField(r, si.add), bvMap(func(b ...*bdd) *bdd { return bOr(b[0], b[1]) }, styleField(s, si.add).(BV), m))
		})
	}

	// set, tell whether set, reset
	sc := p.named("", "StyleColor")

	st = a.newState()
	col := a.fresh(st, p.fn("", "*StyleColor.Set").Params[1].Type(), "colour").(Ifc)
	st.assume(bNot(col.nil_))

	obj := st.newVar(sc, a.fresh(st, sc, "c"), "c")
	ptr := Ptr{obj: obj, nil_: bddFalse}

	for _, o := range a.exec(p.fn("", "*StyleColor.Set"), st, ptr, col) {
		for _, o2 := range a.exec(p.fn("", "*StyleColor.IsSet"), o.st.fork(), ptr) {
			c.want(!o2.panic && o2.st.decide(boolOf(o2.vals[0])) == 1, "a set colour is set", "IsSet", p.pos(p.fn("", "*StyleColor.IsSet").Pos()), "IsSet is not true after Set")
		}

		for _, o2 := range a.exec(p.fn("", "*StyleColor.Color"), o.st.fork(), ptr) {
			c.want(!o2.panic && o2.st.same(o2.vals[0], col), "a set colour is returned", "Color", p.pos(p.fn("", "*StyleColor.Color").Pos()), "Color does not return the colour that was set")
		}

		for _, o2 := range a.exec(p.fn("", "*StyleColor.Reset"), o.st.fork(), ptr) {
			for _, o3 := range a.exec(p.fn("", "*StyleColor.IsSet"), o2.st, ptr) {
				c.want(!o3.panic && o3.st.decide(boolOf(o3.vals[0])) == 0, "a reset colour is not set", "Reset", p.pos(p.fn("", "*StyleColor.Reset").Pos()), "IsSet is not false after Reset")
			}
		}
	}

	// the modifiers are different bits
	var all uint64

	for _, k := range p.constsOf(mod) {
		n, _ := constUint(k)
		if k.Name() == "ModifierNone" || k.Name() == "ModifierAll" {
			continue
		}

		c.want(n != 0 && n&(n-1) == 0 && all&n == 0, "modifiers are distinct bits", k.Name(), p.pos(k.Pos()), fmt.Sprintf("the value 0x%x is not a bit of its own", n))
		all |= n
	}

	for _, k := range p.constsOf(mod) {
		n, _ := constUint(k)
		if k.Name() == "ModifierAll" {
			c.want(n == all, "all modifiers", k.Name(), p.pos(k.Pos()), "ModifierAll is not the union of the modifiers")
		}
	}

	// Contains
	fn = p.fn("", "Modifier.Contains")
	st = a.newState()
	m1, m2 := a.fresh(st, mod, "m1").(BV), a.fresh(st, mod, "m2").(BV)

	for _, o := range a.exec(fn, st, m1, m2) {
		want := bddTrue
		for i := range m1.bits {
			want = bAnd(want, bImp(m2.bits[i], m1.bits[i]))
		}

		c.want(!o.panic && o.st.decide(bIff(boolOf(o.vals[0]), want)) == 1, "contains is the subset relation", fname(fn), p.pos(fn.Pos()), "Contains differs from the subset relation")
	}

	c.atLeast("added and removed modifiers are disjoint", 40)
	c.atLeast("modifiers are distinct bits", 9)
	c.assume("styles are built through their exported methods, so that they do not add and remove the same modifier to begin with")
}

func constUint(k *types.Const) (uint64, bool) {
	return constant.Uint64Val(constant.ToInt(k.Val()))
}

func checkS02(c *Check) {
	p := c.prog("linux")
	a := newAI(c, p)
	si := findStyle(a)
	cell := p.named("", "Cell")
	fi := func(n string) int { return fieldIdx(cell, n) }
	get := func(st *State, id ObjID, n string) Val { return st.obj(id).val.(Tup).fs[fi(n)] }

	fn := p.fn("", "*Cell.SetStyle")
	st := a.newState()
	id := st.newVar(cell, a.fresh(st, cell, "cell"), "cell")
	before := st.obj(id).val
	style := si.disjoint(a.fresh(st, si.typ, "style"))

	n := 0

	for _, o := range a.exec(fn, st, Ptr{obj: id, nil_: bddFalse}, style) {
		if o.panic {
			c.fail("no panic", fname(fn), p.pos(fn.Pos()), "can panic")
			continue
		}

		n++

		old := func(n string) Val { return before.(Tup).fs[fi(n)] }
		c.want(o.st.same(get(o.st, id, "Symbol"), old("Symbol")), "symbol kept", fname(fn), p.pos(fn.Pos()), "changes the symbol")
		c.want(o.st.same(get(o.st, id, "Skip"), old("Skip")), "skip kept", fname(fn), p.pos(fn.Pos()), "changes the skip mark")

		for _, f := range []struct {
			i    int
			name string
		}{{si.fg, "Fg"}, {si.bg, "Bg"}} {
			sc, ok := colourOf(style.(Tup).fs[f.i])
			if !ok {
				c.fail("colour", f.name, p.pos(fn.Pos()), "the colour could not be followed")
				continue
			}

			o.st.split(sc.nil_, func(st *State, unset bool) {
				if unset {
					c.want(st.same(get(st, id, f.name), old(f.name)), "colour kept", f.name, p.pos(fn.Pos()), "changes the colour although the style does not set it")
				} else {
					c.want(st.same(get(st, id, f.name), sc), "colour set", f.name, p.pos(fn.Pos()), "does not set the colour of the style")
				}
			})
		}

		want := bvMap(func(b ...*bdd) *bdd { return bAnd(bOr(b[0], b[1]), bNot(b[2])) }, old("Modifier").(BV), style.(Tup).fs[si.add].(BV), style.(Tup).fs[si.sub].(BV))
		c.want(o.st.same(get(o.st, id, "Modifier"), want), "modifiers", fname(fn), p.pos(fn.Pos()), "the modifiers are "+showVal(get(o.st, id, "Modifier"))+", expected "+showVal(want))
		c.want(o.st.same(o.vals[0], Ptr{obj: id, nil_: bddFalse}), "returns the cell", fname(fn), p.pos(fn.Pos()), "does not return the cell itself")
	}

	if n == 0 {
		c.fail("no result", fname(fn), p.pos(fn.Pos()), "no path returns")
	}

	// the single setters
	for _, k := range []struct{ m, f string }{{"SetSymbol", "Symbol"}, {"SetFg", "Fg"}, {"SetBg", "Bg"}} {
		fn := p.fn("", "*Cell."+k.m)
		st := a.newState()
		id := st.newVar(cell, a.fresh(st, cell, "cell"), "cell")
		before := st.obj(id).val
		arg := a.param(fn, st, 1, "arg")

		for _, o := range a.exec(fn, st, Ptr{obj: id, nil_: bddFalse}, arg) {
			good := !o.panic

			for i, l := range o.st.obj(id).val.(Tup).fs {
				w := before.(Tup).fs[i]
				if i == fi(k.f) {
					w = arg
				}

				good = good && o.st.same(l, w)
			}

			c.want(good, "cell setter", fname(fn), p.pos(fn.Pos()), "does not change exactly "+k.f)
		}
	}

	// Reset gives an empty cell
	st = a.newState()
	id = st.newVar(cell, a.fresh(st, cell, "cell"), "cell")
	fn = p.fn("", "*Cell.Reset")

	for _, o := range a.exec(fn, st, Ptr{obj: id, nil_: bddFalse}) {
		for _, e := range a.exec(p.fn("", "NewEmptyCell"), o.st) {
			c.want(!e.panic && e.st.same(e.st.obj(id).val, e.vals[0]), "reset is an empty cell", fname(fn), p.pos(fn.Pos()), "a reset cell is "+showVal(e.st.obj(id).val)+", an empty one "+showVal(e.vals[0]))

			if !e.panic {
				ec := e.vals[0].(Tup)
				c.want(e.st.same(ec.fs[fi("Symbol")], strC(" ")) && e.st.same(ec.fs[fi("Modifier")], bvConst(0, 16)) && e.st.decide(boolOf(ec.fs[fi("Skip")])) == 0,
					"an empty cell is a blank", "NewEmptyCell", p.pos(p.fn("", "NewEmptyCell").Pos()), "an empty cell is "+showVal(ec))

				for _, k := range []string{"Fg", "Bg"} {
					i, ok := ec.fs[fi(k)].(Ifc)
					c.want(ok && i.typ != nil && typeName(i.typ) == pkgPath("")+".ResetColor", "an empty cell has no colour of its own", k, p.pos(fn.Pos()), "the colour is "+showVal(ec.fs[fi(k)]))
				}
			}
		}
	}

	c.atLeast("colour set", 2)
	c.atLeast("cell setter", 3)
	c.atLeast("reset is an empty cell", 1)
}
