package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S03", checkS03)
}

// deepSame decides that two values are equal, following slices of known length
// and pointers.
func (st *State) deepSame(a, b Val) bool { return st.deepSameN(a, b, 0) }

func (st *State) deepSameN(a, b Val, depth int) bool {
	if depth > 12 {
		return false
	}

	if st.same(a, b) {
		return true
	}

	switch x := a.(type) {
	case Tup:
		y, ok := b.(Tup)
		if !ok || len(x.fs) != len(y.fs) {
			return false
		}

		for i := range x.fs {
			if !st.deepSameN(x.fs[i], y.fs[i], depth+1) {
				return false
			}
		}

		return true
	case Slc:
		xs, ok1 := st.elemsOf(a)
		ys, ok2 := st.elemsOf(b)

		if !ok1 || !ok2 || len(xs) != len(ys) {
			return false
		}

		for i := range xs {
			if !st.deepSameN(xs[i], ys[i], depth+1) {
				return false
			}
		}

		return true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok || st.decide(x.nil_) != 0 || st.decide(y.nil_) != 0 || x.obj == 0 || y.obj == 0 {
			return false
		}

		return st.deepSameN(st.at(x), st.at(y), depth+1)
	case Ifc:
		y, ok := b.(Ifc)
		if !ok || x.typ == nil || y.typ == nil || !types.Identical(x.typ, y.typ) || st.decide(bIff(x.nil_, y.nil_)) != 1 {
			return false
		}

		return st.deepSameN(x.val, y.val, depth+1)
	}

	return false
}

// mentions reports that a value is made from a term.
func (st *State) mentions(v Val, term string, depth int) bool {
	if depth > 8 || v == nil {
		return false
	}

	switch w := v.(type) {
	case Tup:
		for _, f := range w.fs {
			if st.mentions(f, term, depth+1) {
				return true
			}
		}

		return false
	case Slc:
		if es, ok := st.elemsOf(v); ok {
			for _, e := range es {
				if st.mentions(e, term, depth+1) {
					return true
				}
			}
		}

		if o := st.obj(w.obj); o != nil && strings.Contains(o.term, term) {
			return true
		}

		return strings.Contains(w.len.String(), term)
	case Ptr:
		if w.obj != 0 {
			if d := st.at(w); d != nil && !valEq(d, v) && st.mentions(d, term, depth+1) {
				return true
			}
		}

		return strings.Contains(w.nil_.String(), term)
	case Ifc:
		return strings.Contains(w.term, term) || w.typ != nil && st.mentions(w.val, term, depth+1) || strings.Contains(w.nil_.String(), term)
	}

	return strings.Contains(showVal(v), term)
}

// argument passes lists of two elements for slices, so that they are followed
// exactly.
func (a *ai) listArg(st *State, t types.Type, term string, n int) Val {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return a.fresh(st, t, term)
	}

	var es []Val
	for i := 0; i < n; i++ {
		es = append(es, a.fresh(st, sl.Elem(), fmt.Sprintf("%s[%d]", term, i)))
	}

	return st.newSlice(sl.Elem(), es)
}

// shallowLists gives the slice fields of a receiver two known elements.
func (a *ai) shallowLists(st *State, t types.Type, v Val, term string) Val {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return v
	}

	r := Tup{append([]Val(nil), v.(Tup).fs...)}

	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch f.Type().Underlying().(type) {
		case *types.Slice:
			l := a.listArg(st, f.Type(), term+"."+f.Name(), 2).(Slc)
			// there is room for more, so that appending in place would show
			r.fs[i] = l
		}
	}

	return r
}

type setter struct {
	fn      *ssa.Function
	typ     *types.Named
	option  string
	changed map[string]bool
}

// the options of methods whose name is not With<Option>; an empty option takes
// the method out of the rule that different options are independent.
var setterOptions = map[string]string{
	"Rect.Positioned":                          "Position",
	"Layout.Vertical":                          "Direction",
	"Layout.Horizontal":                        "Direction",
	"blockwidget.Block.Rounded":                "BorderType",
	"blockwidget.Block.Sharp":                  "BorderType",
	"blockwidget.Block.Thick":                  "BorderType",
	"blockwidget.Block.Double":                 "BorderType",
	"blockwidget.Block.Bordered":               "BorderSides",
	"blockwidget.Block.WithTitle":              "Title",
	"blockwidget.Title.Top":                    "Position",
	"blockwidget.Title.Bottom":                 "Position",
	"blockwidget.Title.Right":                  "Alignment",
	"blockwidget.Title.Left":                   "Alignment",
	"blockwidget.Title.Center":                 "Alignment",
	"gaugewidget.Gauge.WithPercent":            "Ratio",
	"tabswidget.Tabs.Select":                   "Selected",
	"tabswidget.Tabs.Unselect":                 "Selected",
	"paragraphwidget.Paragraph.Right":          "Alignment",
	"paragraphwidget.Paragraph.Left":           "Alignment",
	"paragraphwidget.Paragraph.Center":         "Alignment",
	"paragraphwidget.Paragraph.Wrapped":        "Wrap",
	"textwidget.Line.Right":                    "Alignment",
	"textwidget.Line.Left":                     "Alignment",
	"textwidget.Line.Center":                   "Alignment",
	"textwidget.Text.Right":                    "Alignment",
	"textwidget.Text.Left":                     "Alignment",
	"textwidget.Text.Center":                   "Alignment",
	"textwidget.Span.WithStylePatch":           "Style",
	"popupwidget.Popup.Top":                    "Vertical",
	"popupwidget.Popup.Middle":                 "Vertical",
	"popupwidget.Popup.Bottom":                 "Vertical",
	"popupwidget.Popup.Left":                   "Horizontal",
	"popupwidget.Popup.Center":                 "Horizontal",
	"popupwidget.Popup.Right":                  "Horizontal",
	"inputwidget.Input.Left":                   "Alignment",
	"inputwidget.Input.Center":                 "Alignment",
	"inputwidget.Input.Right":                  "Alignment",
	"inputwidget.Input.Top":                    "Vertical",
	"inputwidget.Input.Middle":                 "Vertical",
	"inputwidget.Input.Bottom":                 "Vertical",
	"Cell.SetSymbol":                           "Symbol",
	"Cell.SetFg":                               "Fg",
	"Cell.SetBg":                               "Bg",
	"scrollwidget.State.SetPosition":           "position",
	"scrollwidget.State.SetViewportContentLen": "viewport",
	// derived values, covered by other rules
	"Style.Patched": "", "Style.WithModifier": "", "Style.WithoutModifier": "",
}

// shorthands are the methods that stand for another one with fixed arguments.
var shorthands = []struct{ method, base, konst string }{
	{"Layout.Vertical", "Layout.WithDirection", "DirectionVertical"},
	{"Layout.Horizontal", "Layout.WithDirection", "DirectionHorizontal"},
	{"blockwidget.Block.Rounded", "blockwidget.Block.WithBorderType", "blockwidget.BorderTypeRounded"},
	{"blockwidget.Block.Sharp", "blockwidget.Block.WithBorderType", "blockwidget.BorderTypeSharp"},
	{"blockwidget.Block.Thick", "blockwidget.Block.WithBorderType", "blockwidget.BorderTypeThick"},
	{"blockwidget.Block.Double", "blockwidget.Block.WithBorderType", "blockwidget.BorderTypeDouble"},
	{"blockwidget.Title.Top", "blockwidget.Title.WithPosition", "blockwidget.TitlePositionTop"},
	{"blockwidget.Title.Bottom", "blockwidget.Title.WithPosition", "blockwidget.TitlePositionBottom"},
	{"blockwidget.Title.Left", "blockwidget.Title.WithAlignment", "AlignmentLeft"},
	{"blockwidget.Title.Right", "blockwidget.Title.WithAlignment", "AlignmentRight"},
	{"blockwidget.Title.Center", "blockwidget.Title.WithAlignment", "AlignmentCenter"},
	{"textwidget.Line.Left", "textwidget.Line.WithAlignment", "AlignmentLeft"},
	{"textwidget.Line.Right", "textwidget.Line.WithAlignment", "AlignmentRight"},
	{"textwidget.Line.Center", "textwidget.Line.WithAlignment", "AlignmentCenter"},
	{"textwidget.Text.Left", "textwidget.Text.WithAlignment", "AlignmentLeft"},
	{"textwidget.Text.Right", "textwidget.Text.WithAlignment", "AlignmentRight"},
	{"textwidget.Text.Center", "textwidget.Text.WithAlignment", "AlignmentCenter"},
	{"inputwidget.Input.Left", "inputwidget.Input.WithAlignment", "AlignmentLeft"},
	{"inputwidget.Input.Right", "inputwidget.Input.WithAlignment", "AlignmentRight"},
	{"inputwidget.Input.Center", "inputwidget.Input.WithAlignment", "AlignmentCenter"},
	{"inputwidget.Input.Top", "inputwidget.Input.WithVertical", "FlexStart"},
	{"inputwidget.Input.Middle", "inputwidget.Input.WithVertical", "FlexCenter"},
	{"inputwidget.Input.Bottom", "inputwidget.Input.WithVertical", "FlexEnd"},
	{"blockwidget.Block.Bordered", "blockwidget.Block.WithBorderSides", "blockwidget.SideAll"},
	{"Style.Bold", "Style.WithModifier", "ModifierBold"},
	{"Style.Dim", "Style.WithModifier", "ModifierDim"},
	{"Style.Italic", "Style.WithModifier", "ModifierItalic"},
	{"Style.Underlined", "Style.WithModifier", "ModifierUnderlined"},
	{"Style.Reversed", "Style.WithModifier", "ModifierReversed"},
	{"Style.CrossedOut", "Style.WithModifier", "ModifierCrossedOut"},
}

// fieldShorthands set an exported field to a constant.
var fieldShorthands = []struct{ method, field, konst string }{
	{"paragraphwidget.Paragraph.Left", "Alignment", "AlignmentLeft"},
	{"paragraphwidget.Paragraph.Right", "Alignment", "AlignmentRight"},
	{"paragraphwidget.Paragraph.Center", "Alignment", "AlignmentCenter"},
	{"popupwidget.Popup.Top", "Vertical", "FlexStart"},
	{"popupwidget.Popup.Middle", "Vertical", "FlexCenter"},
	{"popupwidget.Popup.Bottom", "Vertical", "FlexEnd"},
	{"popupwidget.Popup.Left", "Horizontal", "FlexStart"},
	{"popupwidget.Popup.Center", "Horizontal", "FlexCenter"},
	{"popupwidget.Popup.Right", "Horizontal", "FlexEnd"},
}

// strVariants take a string and stand for another method with the value made
// from it.
var strVariants = []struct{ method, base, ctor string }{
	{"blockwidget.Block.WithTitleStr", "blockwidget.Block.WithTitle", "blockwidget.NewTitleStr"},
	{"gaugewidget.Gauge.WithLabelStr", "gaugewidget.Gauge.WithLabel", "textwidget.NewSpan"},
	{"tabswidget.Tabs.WithPaddingLeftStr", "tabswidget.Tabs.WithPaddingLeft", "textwidget.NewLineStr"},
	{"tabswidget.Tabs.WithPaddingRightStr", "tabswidget.Tabs.WithPaddingRight", "textwidget.NewLineStr"},
	{"tabswidget.Tabs.WithDividerStr", "tabswidget.Tabs.WithDivider", "textwidget.NewSpan"},
}

// setters whose value is not the argument itself.
var derivedSetters = map[string]bool{
	"blockwidget.Block.WithTitle": true, "blockwidget.Block.WithTitleStr": true, "blockwidget.Block.WithBorderSides": true,
	"blockwidget.Block.WithBorderType": true, "gaugewidget.Gauge.WithPercent": true, "gaugewidget.Gauge.WithLabelStr": true,
	"throbberwidget.Throbber.WithType": true, "inputwidget.Input.WithPlaceholder": true,
	"textwidget.Span.WithStylePatch": true, "textwidget.Line.WithSpansStr": true, "textwidget.Text.WithLinesStr": true,
	"tabswidget.Tabs.WithPaddingLeftStr": true, "tabswidget.Tabs.WithPaddingRightStr": true, "tabswidget.Tabs.WithDividerStr": true,
	"Style.RGB": true, "Style.OnRGB": true, "App.WithContext": true,
}

// lists that a method extends (true) or replaces (false).
var listSetters = map[string]bool{
	"textwidget.Line.WithSpans": true, "textwidget.Text.WithLines": true, "Layout.WithConstraints": true,
	"listwidget.List.WithItems": false, "tabswidget.Tabs.WithTitles": false,
}

func shortMethod(fn *ssa.Function) string {
	n := deref(recvType(fn)).(*types.Named)
	pk := n.Obj().Pkg().Name()

	s := n.Obj().Name() + "." + fn.Name()
	if pk != "bento" {
		s = pk + "." + s
	}

	return s
}

// pkgOfShort finds the package of a short name such as blockwidget.Block.
func (p *Prog) splitShort(s string) (string, string) {
	parts := strings.Split(s, ".")
	for _, pk := range p.repoPkgs() {
		if len(parts) > 1 && pk.Types.Name() == parts[0] && pk.Types.Name() != "bento" && pk.Types.Name() != "main" {
			return strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/"), strings.Join(parts[1:], ".")
		}
	}

	return "", s
}

func (p *Prog) shortFn(s string) *ssa.Function {
	pk, n := p.splitShort(s)
	return p.fn(pk, n)
}

func (p *Prog) shortConst(a *ai, s string) Val {
	pk, n := p.splitShort(s)
	k := p.obj(pk, n).(*types.Const)

	return a.goConst(k.Val(), k.Type().Underlying().(*types.Basic), k.Type())
}

func checkS03(c *Check) {
	p := c.prog("linux")
	a := newAI(c, p)
	useBits(pkgPath("")+".Modifier", pkgPath("widget/blockwidget")+".Side")

	byType := map[*types.Named][]*setter{}

	var order []*types.Named

	for _, pk := range p.repoPkgs() {
		if strings.Contains(pk.PkgPath, "/internal/") || strings.Contains(pk.PkgPath, "/examples") {
			continue
		}

		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || !tn.Exported() || tn.IsAlias() {
				continue
			}

			n, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}

			if _, ok := n.Underlying().(*types.Struct); !ok {
				continue
			}

			for _, fn := range p.exportedMethods(n) {
				res := fn.Signature.Results()
				if res.Len() != 1 || !types.Identical(deref(res.At(0).Type()), n) {
					continue
				}

				m := shortMethod(fn)

				opt, listed := setterOptions[m]
				if listed && opt == "" {
					continue
				}

				if !listed {
					if !strings.HasPrefix(fn.Name(), "With") {
						continue
					}

					opt = strings.TrimSuffix(strings.TrimPrefix(fn.Name(), "With"), "Str")
				}

				if byType[n] == nil {
					order = append(order, n)
				}

				byType[n] = append(byType[n], &setter{fn: fn, typ: n, option: opt})
			}
		}
	}

	for _, n := range order {
		ls := leaves(n)

		for _, s := range byType[n] {
			a.oneSetter(s, ls)
		}

		// different options are independent
		for i, s := range byType[n] {
			for _, o := range byType[n][i+1:] {
				if s.option == o.option {
					continue
				}

				var both []string
				for l := range s.changed {
					if o.changed[l] {
						both = append(both, l)
					}
				}

				sort.Strings(both)
				c.want(len(both) == 0, "options are independent", fname(s.fn)+" and "+o.fn.Name(), p.pos(s.fn.Pos()),
					"both change "+strings.Join(both, ", "))
			}
		}
	}

	a.checkShorthands()
	a.checkColours()
	a.checkConstructors()

	c.atLeast("setter keeps the argument", 50)
	c.atLeast("options are independent", 250)
	c.atLeast("shorthand", 30)
	c.atLeast("colour shorthand", 32)
	c.assume("lists given to a setter are followed with two elements, and lists of the receiver with two elements: the methods treat elements uniformly")
	a.notesFail("undecided")
}

// oneSetter runs a setter on an unknown value: what it changes, and that it
// keeps what it was given.
func (a *ai) oneSetter(s *setter, ls []leaf) {
	c, p := a.c, a.p
	m := shortMethod(s.fn)
	st := a.newState()
	val := a.shallowLists(st, s.typ, a.fresh(st, s.typ, "recv"), "recv")
	rv, _ := a.recv(s.fn, st, val)
	args := []Val{rv}
	params := s.fn.Params[1:]

	for i, pr := range params {
		args = append(args, a.listArg(st, pr.Type(), fmt.Sprintf("arg%d", i), 2))
	}

	s.changed = map[string]bool{}
	kept := make([]bool, len(params))

	for i := range kept {
		kept[i] = true
	}

	n := 0

	for _, o := range a.exec(s.fn, st, args...) {
		if o.panic {
			continue
		}

		n++

		res := o.st.at(o.vals[0])
		for _, l := range ls {
			if !o.st.same(o.st.leafOf(res, s.typ, l), o.st.leafOf(val, s.typ, l)) {
				s.changed[l.name] = true
			}
		}

		for i, pr := range params {
			if !a.keepsArg(o.st, s, m, res, val, args[i+1], pr, fmt.Sprintf("arg%d", i), ls) {
				kept[i] = false
			}
		}
	}

	if n == 0 {
		c.fail("setter returns", m, p.pos(s.fn.Pos()), "no path returns a value")
		return
	}

	for i, pr := range params {
		c.want(kept[i], "setter keeps the argument", m+" "+pr.Name(), p.pos(s.fn.Pos()), "the value of the argument is not what the option is set to in the result")
	}

	c.want(len(s.changed) > 0, "setter changes its option", m, p.pos(s.fn.Pos()), "nothing of the value changes")

	// exported fields are options by their own name
	var fields []string

	for _, l := range ls {
		if s.changed[l.name] {
			fields = append(fields, l.name)
		}
	}

	st2 := s.typ.Underlying().(*types.Struct)
	for i := 0; i < st2.NumFields(); i++ {
		f := st2.Field(i)
		if !f.Exported() || f.Name() != s.option {
			continue
		}

		good := len(fields) > 0

		for _, l := range fields {
			if l != f.Name() && !strings.HasPrefix(l, f.Name()+".") {
				good = false
			}
		}

		c.want(good, "option is the field of its name", m, p.pos(s.fn.Pos()), "changes "+strings.Join(fields, ", ")+" instead of "+f.Name())
	}
}

func (a *ai) keepsArg(st *State, s *setter, m string, res, old, arg Val, pr *ssa.Parameter, term string, ls []leaf) bool {
	if derivedSetters[m] {
		// strings are split into lines and graphemes, and chosen sets are
		// looked up: what they give is compared with constants elsewhere
		return st.mentions(res, term, 0) || strings.HasSuffix(m, "Str") || m == "inputwidget.Input.WithPlaceholder" ||
			m == "blockwidget.Block.WithBorderType" || m == "throbberwidget.Throbber.WithType" || m == "gaugewidget.Gauge.WithPercent"
	}

	tup := res.(Tup)
	oldT := old.(Tup)

	if extend, ok := listSetters[m]; ok {
		as, _ := st.elemsOf(arg)

		for i, f := range tup.fs {
			es, ok := st.elemsOf(f)
			if !ok {
				continue
			}

			want := as

			if extend {
				os, ok := st.elemsOf(oldT.fs[i])
				if !ok {
					continue
				}

				want = append(append([]Val(nil), os...), as...)
			}

			if len(es) != len(want) {
				continue
			}

			good := true
			for k := range es {
				good = good && st.deepSame(es[k], want[k])
			}

			if good {
				return true
			}
		}

		return false
	}

	// the option itself, a part of it, or what it points to
	var holds func(t types.Type, v Val) bool
	holds = func(t types.Type, v Val) bool {
		if types.Identical(t, pr.Type()) && st.deepSame(v, arg) {
			return true
		}

		if pt, ok := t.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), pr.Type()) {
			if st.decide(v.(Ptr).nil_) == 0 && st.deepSame(st.at(v), arg) {
				return true
			}
		}

		if s, ok := t.Underlying().(*types.Struct); ok && isRepoType(t) {
			for i := 0; i < s.NumFields(); i++ {
				if holds(s.Field(i).Type(), v.(Tup).fs[i]) {
					return true
				}
			}
		}

		return false
	}

	return holds(s.typ, res)
}

func (a *ai) methodResult(st *State, fn *ssa.Function, val Val, args ...Val) []Outcome {
	rv, _ := a.recv(fn, st, val)

	var outs []Outcome

	for _, o := range a.exec(fn, st, append([]Val{rv}, args...)...) {
		if !o.panic {
			o.vals = []Val{o.st.at(o.vals[0])}
			outs = append(outs, o)
		}
	}

	return outs
}

func (a *ai) checkShorthands() {
	c, p := a.c, a.p

	for _, s := range shorthands {
		fn, base := p.shortFn(s.method), p.shortFn(s.base)
		typ := deref(recvType(fn))
		st := a.newState()
		val := a.shallowLists(st, typ, a.fresh(st, typ, "recv"), "recv")
		k := p.shortConst(a, s.konst)
		n := 0

		for _, o := range a.methodResult(st.fork(), fn, val) {
			arg := k
			if sl, ok := base.Params[1].Type().Underlying().(*types.Slice); ok {
				arg = o.st.newSlice(sl.Elem(), []Val{k})
			}

			for _, o2 := range a.methodResult(o.st, base, val, arg) {
				n++

				c.want(o2.st.deepSame(o.vals[0], o2.vals[0]), "shorthand", s.method, p.pos(fn.Pos()), "differs from "+s.base+"("+s.konst+")")
			}
		}

		if n == 0 {
			c.fail("shorthand", s.method, p.pos(fn.Pos()), "no path returns a value")
		}
	}

	for _, s := range fieldShorthands {
		fn := p.shortFn(s.method)
		typ := deref(recvType(fn))
		st := a.newState()
		val := a.fresh(st, typ, "recv")
		k := p.shortConst(a, s.konst)

		for _, o := range a.methodResult(st, fn, val) {
			c.want(o.st.same(o.vals[0].(Tup).fs[fieldIdx(typ, s.field)], k), "shorthand", s.method, p.pos(fn.Pos()), "does not set "+s.field+" to "+s.konst)
		}
	}

	for _, s := range strVariants {
		fn, base, ctor := p.shortFn(s.method), p.shortFn(s.base), p.shortFn(s.ctor)
		typ := deref(recvType(fn))
		n := 0
		bad := false

		for _, str := range []string{"title", ""} {
			st := a.newState()
			val := a.shallowLists(st, typ, a.fresh(st, typ, "recv"), "recv")

			for _, o := range a.methodResult(st, fn, val, strC(str)) {
				for _, o2 := range a.exec(ctor, o.st, strC(str)) {
					if o2.panic {
						continue
					}

					for _, o3 := range a.methodResult(o2.st, base, val, o2.vals[0]) {
						n++

						if !o3.st.deepSame(o.vals[0], o3.vals[0]) {
							bad = true
						}
					}
				}
			}
		}

		c.want(n > 0 && !bad, "shorthand", s.method, p.pos(fn.Pos()), "differs from "+s.base+"("+s.ctor+"(…))")
	}

	for _, s := range []struct {
		method, base, ctor string
		each               bool
	}{
		{"textwidget.Line.WithSpansStr", "textwidget.Line.WithSpans", "textwidget.NewSpan", true},
		{"textwidget.Text.WithLinesStr", "textwidget.Text.WithLines", "textwidget.NewLinesStr", false},
	} {
		fn, base, ctor := p.shortFn(s.method), p.shortFn(s.base), p.shortFn(s.ctor)
		typ := deref(recvType(fn))
		st := a.newState()
		val := a.shallowLists(st, typ, a.fresh(st, typ, "recv"), "recv")
		strs := []Val{strC("one"), strC("two")}
		list := st.newSlice(types.Typ[types.String], strs)
		n := 0
		bad := false

		for _, o := range a.methodResult(st, fn, val, list) {
			st := o.st

			var arg Val

			if s.each {
				var es []Val

				for _, str := range strs {
					o2 := a.exec(ctor, st, str)
					st = o2[0].st
					es = append(es, o2[0].vals[0])
				}

				arg = st.newSlice(base.Params[1].Type().Underlying().(*types.Slice).Elem(), es)
			} else {
				o2 := a.exec(ctor, st, list)
				st = o2[0].st
				arg = o2[0].vals[0]
			}

			for _, o3 := range a.methodResult(st, base, val, arg) {
				n++
				if !o3.st.deepSame(o.vals[0], o3.vals[0]) {
					bad = true
				}
			}
		}

		c.want(n > 0 && !bad, "shorthand", s.method, p.pos(fn.Pos()), "differs from "+s.base+" of "+s.ctor)
	}

	// unselecting
	fn := p.shortFn("tabswidget.Tabs.Unselect")
	typ := deref(recvType(fn))
	st := a.newState()
	val := a.fresh(st, typ, "recv")

	for _, o := range a.methodResult(st, fn, val) {
		// what Select changes is nil
		sel := p.shortFn("tabswidget.Tabs.Select")
		for _, o2 := range a.methodResult(o.st, sel, val, a.fresh(o.st, sel.Params[1].Type(), "i")) {
			for _, l := range leaves(typ) {
				if !o2.st.same(o2.st.leafOf(o2.vals[0], typ, l), o2.st.leafOf(val, typ, l)) {
					pv, ok := o2.st.leafOf(o.vals[0], typ, l).(Ptr)
					c.want(ok && o2.st.decide(pv.nil_) == 1, "shorthand", "tabswidget.Tabs.Unselect", p.pos(fn.Pos()), "the selection set by Select is not removed")
				}
			}
		}
	}

	// a percentage is the ratio of a hundredth
	fn = p.shortFn("gaugewidget.Gauge.WithPercent")
	typ = deref(recvType(fn))

	for _, pc := range []int64{0, 1, 50, 99, 100} {
		st := a.newState()
		val := a.fresh(st, typ, "recv")

		for _, o := range a.exec(fn, st, val, Num{linC(pc)}) {
			c.want(!o.panic, "percent", fmt.Sprint(pc), p.pos(fn.Pos()), "a valid percentage is rejected")
		}
	}

	for _, pc := range []int64{-1, 101} {
		st := a.newState()
		val := a.fresh(st, typ, "recv")

		for _, o := range a.exec(fn, st, val, Num{linC(pc)}) {
			c.want(o.panic, "percent", fmt.Sprint(pc), p.pos(fn.Pos()), "an invalid percentage is accepted")
		}
	}
}

var colourNames = []string{"Black", "Red", "Green", "Yellow", "Blue", "Magenta", "Cyan", "White",
	"BrightBlack", "BrightRed", "BrightGreen", "BrightYellow", "BrightBlue", "BrightMagenta", "BrightCyan", "BrightWhite"}

// checkColours compares the colour shorthands of a style with the numbers of
// the ANSI colours.
func (a *ai) checkColours() {
	c, p := a.c, a.p
	si := findStyle(a)

	for n, name := range colourNames {
		for _, on := range []bool{false, true} {
			m, field, other := name, si.fg, si.bg
			if on {
				m, field, other = "On"+name, si.bg, si.fg
			}

			fn := p.fn("", "Style."+m)
			st := a.newState()
			val := a.fresh(st, si.typ, "recv")

			for _, o := range a.methodResult(st, fn, val) {
				got, ok := colourOf(o.vals[0].(Tup).fs[field])
				good := ok && got.typ != nil && typeName(got.typ) == "github.com/muesli/termenv.ANSIColor" && o.st.same(got.val, Num{linC(int64(n))})
				c.want(good, "colour shorthand", "Style."+m, p.pos(fn.Pos()), fmt.Sprintf("the colour is %s, not ANSI colour %d", showVal(got), n))

				for i := range val.(Tup).fs {
					if i != field {
						what := "modifiers"
						if i == other {
							what = "other colour"
						}

						c.want(o.st.same(o.vals[0].(Tup).fs[i], val.(Tup).fs[i]), "colour shorthand keeps the rest", "Style."+m+" "+what, p.pos(fn.Pos()), "changes the "+what)
					}
				}
			}
		}
	}

	for _, k := range []struct {
		m string
		f int
	}{{"RGB", si.fg}, {"OnRGB", si.bg}} {
		fn := p.fn("", "Style."+k.m)

		for _, rgb := range [][3]int64{{1, 2, 3}, {0xab, 0, 0xff}} {
			st := a.newState()
			val := a.fresh(st, si.typ, "recv")

			for _, o := range a.methodResult(st, fn, val, Num{linC(rgb[0])}, Num{linC(rgb[1])}, Num{linC(rgb[2])}) {
				got, ok := colourOf(o.vals[0].(Tup).fs[k.f])
				want := fmt.Sprintf("#%02x%02x%02x", rgb[0], rgb[1], rgb[2])
				good := ok && got.typ != nil && typeName(got.typ) == "github.com/muesli/termenv.RGBColor" && o.st.same(got.val, strC(want))
				c.want(good, "colour shorthand", "Style."+k.m, p.pos(fn.Pos()), fmt.Sprintf("the colour is %s, not %s", showVal(got), want))
			}
		}
	}
}

// checkConstructors compares the constructors of the geometric types with the
// fields they name.
func (a *ai) checkConstructors() {
	c, p := a.c, a.p
	num := func(n int64) Val { return Num{linC(n)} }
	field := func(t *types.Named, v Val, n string) Val { return v.(Tup).fs[fieldIdx(t, n)] }

	pad := p.named("", "Padding")
	fn := p.fn("", "NewPadding")

	for _, k := range []struct {
		in   []int64
		want [4]int64 // top, right, bottom, left
	}{{nil, [4]int64{}}, {[]int64{5}, [4]int64{5, 5, 5, 5}}, {[]int64{5, 6}, [4]int64{5, 6, 5, 6}}, {[]int64{5, 6, 7, 8}, [4]int64{5, 6, 7, 8}}} {
		st := a.newState()

		var es []Val
		for i := range k.in {
			es = append(es, a.fresh(st, types.Typ[types.Int], fmt.Sprintf("side%d", k.in[i])))
		}

		for _, o := range a.exec(fn, st, st.newSlice(types.Typ[types.Int], es)) {
			good := !o.panic

			if good {
				for i, n := range []string{"Top", "Right", "Bottom", "Left"} {
					want := num(0)
					if k.want[i] != 0 {
						want = a.fresh(o.st, types.Typ[types.Int], fmt.Sprintf("side%d", k.want[i]))
					}

					good = good && o.st.same(field(pad, o.vals[0], n), want)
				}
			}

			c.want(good, "constructor", fmt.Sprintf("NewPadding of %d sides", len(k.in)), p.pos(fn.Pos()), "the sides are not in the order top, right, bottom, left")
		}
	}

	pos := p.named("", "Position")
	rect := p.named("", "Rect")

	for _, k := range []struct {
		fn   string
		t    *types.Named
		want []string
	}{{"NewPosition", pos, []string{"X", "Y"}}, {"NewRect", rect, []string{"Width", "Height"}}} {
		fn := p.fn("", k.fn)
		st := a.newState()
		v0, v1 := a.fresh(st, types.Typ[types.Int], "a0"), a.fresh(st, types.Typ[types.Int], "a1")

		for _, o := range a.exec(fn, st, v0, v1) {
			c.want(!o.panic && o.st.same(field(k.t, o.vals[0], k.want[0]), v0) && o.st.same(field(k.t, o.vals[0], k.want[1]), v1), "constructor", k.fn, p.pos(fn.Pos()), "the arguments are not "+strings.Join(k.want, " and "))
		}
	}

	// Positioned moves to x, y
	fn = p.fn("", "Rect.Positioned")
	st := a.newState()
	r := a.fresh(st, rect, "r")
	x, y := a.fresh(st, types.Typ[types.Int], "x"), a.fresh(st, types.Typ[types.Int], "y")

	for _, o := range a.exec(fn, st, r, x, y) {
		good := !o.panic
		if good {
			ps := field(rect, o.vals[0], "Position")
			good = o.st.same(field(pos, ps, "X"), x) && o.st.same(field(pos, ps, "Y"), y) &&
				o.st.same(field(rect, o.vals[0], "Width"), field(rect, r, "Width")) && o.st.same(field(rect, o.vals[0], "Height"), field(rect, r, "Height"))
		}

		c.want(good, "constructor", "Rect.Positioned", p.pos(fn.Pos()), "does not move to x, y and keep the size")
	}

	// WithBorderSides unites the sides
	fn = p.shortFn("blockwidget.Block.WithBorderSides")
	typ := deref(recvType(fn))
	side := p.named("widget/blockwidget", "Side")

	for n := 0; n <= 3; n++ {
		st := a.newState()
		val := a.fresh(st, typ, "recv")
		arg := a.listArg(st, fn.Params[1].Type(), "side", n)

		want := bvConst(0, 8)
		es, _ := st.elemsOf(arg)

		for _, e := range es {
			want = bvMap(func(b ...*bdd) *bdd { return bOr(b[0], b[1]) }, want, e.(BV))
		}

		if n == 0 {
			k, _ := constant.Uint64Val(constant.ToInt(p.constVal("widget/blockwidget", "SideAll")))
			want = bvConst(k, 8)
		}

		for _, o := range a.methodResult(st, fn, val, arg) {
			good := false

			for i, f := range o.vals[0].(Tup).fs {
				if types.Identical(typ.Underlying().(*types.Struct).Field(i).Type(), side) {
					good = o.st.same(f, want)
				}
			}

			c.want(good, "constructor", fmt.Sprintf("WithBorderSides of %d sides", n), p.pos(fn.Pos()), "the borders are not the union of the sides")
		}
	}
}
