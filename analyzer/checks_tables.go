package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W04", checkW04)
	register("I02", checkI02)
}

// glyphs of the symbols, by the names of their constants (Unicode charts 2190,
// 2500 and 2580).
var glyphs = map[string]string{
	"ArrowUp": "\u25b2", "ArrowRight": "\u25b6", "ArrowDown": "\u25bc", "ArrowLeft": "\u25c0",
	"BlockFull": "\u2588", "BlockSevenEighths": "\u2589", "BlockThreeQuarters": "\u258a", "BlockFiveEighths": "\u258b",
	"BlockHalf": "\u258c", "BlockThreeEighths": "\u258d", "BlockOneQuarter": "\u258e", "BlockOneEighth": "\u258f",
	"LineVertical": "\u2502", "LineDoubleVertical": "\u2551", "LineThickVertical": "\u2503",
	"LineHorizontal": "\u2500", "LineDoubleHorizontal": "\u2550", "LineThickHorizontal": "\u2501",
	"LineTopRight": "\u2510", "LineRoundedTopRight": "\u256e", "LineDoubleTopRight": "\u2557", "LineThickTopRight": "\u2513",
	"LineTopLeft": "\u250c", "LineRoundedTopLeft": "\u256d", "LineDoubleTopLeft": "\u2554", "LineThickTopLeft": "\u250f",
	"LineBottomRight": "\u2518", "LineRoundedBottomRight": "\u256f", "LineDoubleBottomRight": "\u255d", "LineThickBottomRight": "\u251b",
	"LineBottomLeft": "\u2514", "LineRoundedBottomLeft": "\u2570", "LineDoubleBottomLeft": "\u255a", "LineThickBottomLeft": "\u2517",
	"LineVerticalLeft": "\u2524", "LineDoubleVerticalLeft": "\u2563", "LineThickVerticalLeft": "\u252b",
	"LineVerticalRight": "\u251c", "LineDoubleVerticalRight": "\u2560", "LineThickVerticalRight": "\u2523",
	"LineHorizontalDown": "\u252c", "LineDoubleHorizontalDown": "\u2566", "LineThickHorizontalDown": "\u2533",
	"LineHorizontalUp": "\u2534", "LineDoubleHorizontalUp": "\u2569", "LineThickHorizontalUp": "\u253b",
	"LineCross": "\u253c", "LineDoubleCross": "\u256c", "LineThickCross": "\u254b",
}

// throbbers are the frames of the throbbers.
var throbbers = map[string][]string{
	"TypeLine":            {"|", "/", "-", "\\"},
	"TypeHorizontalBlock": {"\u258f", "\u258e", "\u258d", "\u258c", "\u258b", "\u258a", "\u2589", "\u2588"},
	"TypeVerticalBlock":   {"\u2581", "\u2582", "\u2583", "\u2584", "\u2585", "\u2586", "\u2587", "\u2588"},
	"TypeBrailleEight":    {"\u28f7", "\u28ef", "\u28df", "\u287f", "\u28bf", "\u28fb", "\u28fd", "\u28fe"},
	"TypeParenthesis":     {"\u239b", "\u239c", "\u239d", "\u239e", "\u239f", "\u23a0"},
	"TypeCanadian":        {"\u1510", "\u1bc7", "\u1511", "\u1bc7"},
	"TypeEllipsis":        {"", ".", "..", "..."},
	"TypeMeter":           {"\u25b1\u25b1\u25b1", "\u25b0\u25b1\u25b1", "\u25b0\u25b0\u25b1", "\u25b0\u25b0\u25b0", "\u25b0\u25b0\u25b1", "\u25b0\u25b1\u25b1", "\u25b1\u25b1\u25b1"},
	"TypePulse":           {"\u2588", "\u2593", "\u2592", "\u2591"},
}

// scoped finds a constant of a package.
func (p *Prog) scoped(dir, name string) *types.Const {
	c, ok := p.pkg(dir).Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		anchorf("no constant %s in %s", name, pkgPath(dir))
	}

	return c
}

func checkW04(c *Check) {
	p := c.prog("linux")

	names := make([]string, 0, len(glyphs))
	for n := range glyphs {
		names = append(names, n)
	}

	sort.Strings(names)

	for _, n := range names {
		k := p.scoped("symbol", n)
		got := ""

		if k.Val().Kind() == constant.String {
			got = constant.StringVal(k.Val())
		}

		c.want(got == glyphs[n], "symbol is the named glyph", n, p.pos(k.Pos()), fmt.Sprintf("%s is %q (%U) instead of %q (%U)", n, got, []rune(got), glyphs[n], []rune(glyphs[n])))
	}

	// call evaluates a method of a constant
	call := func(dir, konst, method string) (*State, Val, string) {
		k := p.scoped(dir, konst)
		fn := p.methodOf(k.Type().(*types.Named), method)
		a := newAI(c, p)
		outs := a.exec(fn, a.newState(), a.goConst(k.Val(), k.Type().Underlying().(*types.Basic), k.Type()))
		a.notesFail("undecided")

		if len(outs) != 1 || outs[0].panic {
			return nil, nil, p.pos(fn.Pos())
		}

		return outs[0].st, outs[0].vals[0], p.pos(fn.Pos())
	}

	fieldsOf := func(t types.Type, v Val) map[string]string {
		m := map[string]string{}

		tup, ok := v.(Tup)
		s, ok2 := t.Underlying().(*types.Struct)

		for i := 0; ok && ok2 && i < s.NumFields(); i++ {
			if str, ok := tup.fs[i].(Str); ok {
				if k, ok := str.constant(); ok {
					m[s.Field(i).Name()] = k
				}
			}
		}

		return m
	}

	compare := func(rule, konst, pos string, got map[string]string, want map[string][]string) {
		var fs []string
		for f := range want {
			fs = append(fs, f)
		}

		sort.Strings(fs)

		for _, f := range fs {
			v, ok := got[f]
			good := false

			for _, w := range want[f] {
				good = good || ok && v == w
			}

			c.want(good, rule, konst+" "+f, pos, fmt.Sprintf("it is %q instead of %q", v, want[f][0]))
		}
	}

	// border sets
	set := p.named("widget/blockwidget", "BorderSet")

	for konst, kind := range map[string]string{"BorderTypeSharp": "", "BorderTypeRounded": "Rounded", "BorderTypeDouble": "Double", "BorderTypeThick": "Thick"} {
		_, v, pos := call("widget/blockwidget", konst, "Set")
		line := kind

		if kind == "Rounded" {
			line = ""
		}

		want := map[string][]string{}
		for _, f := range []string{"TopLeft", "TopRight", "BottomLeft", "BottomRight"} {
			want[f] = []string{glyphs["Line"+kind+f]}
		}

		for _, f := range []string{"VerticalLeft", "VerticalRight"} {
			want[f] = []string{glyphs["Line"+line+"Vertical"]}
		}

		for _, f := range []string{"HorizontalTop", "HorizontalBottom"} {
			want[f] = []string{glyphs["Line"+line+"Horizontal"]}
		}

		compare("border set", konst, pos, fieldsOf(set, v), want)
	}

	// scrollbar sets
	set = p.named("widget/scrollwidget", "Set")

	for konst, track := range map[string]string{"SymbolsDoubleVertical": "LineDoubleVertical", "SymbolsVertical": "LineVertical", "SymbolsDoubleHorizontal": "LineDoubleHorizontal", "SymbolsHorizontal": "LineHorizontal"} {
		_, v, pos := call("widget/scrollwidget", konst, "Set")
		want := map[string][]string{"Track": {glyphs[track]}, "Thumb": {glyphs["BlockFull"]}, "Begin": {glyphs["ArrowUp"]}, "End": {glyphs["ArrowDown"]}}

		if strings.Contains(track, "Horizontal") {
			// the heads of a horizontal bar may be left out
			want["Begin"], want["End"] = []string{glyphs["ArrowLeft"], ""}, []string{glyphs["ArrowRight"], ""}
		}

		compare("scrollbar set", konst, pos, fieldsOf(set, v), want)
	}

	// throbbers
	for konst, frames := range throbbers {
		st, v, pos := call("widget/throbberwidget", konst, "Set")

		var got []string

		if st != nil {
			es, _ := st.elemsOf(v)
			for _, e := range es {
				s, ok := e.(Str)
				k, ok2 := s.constant()

				if !ok || !ok2 {
					k = "?"
				}

				got = append(got, k)
			}
		}

		c.want(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", frames), "throbber set", konst, pos, fmt.Sprintf("its frames are %q instead of %q", got, frames))

		_, v, pos = call("widget/throbberwidget", konst, "String")
		s, _ := v.(Str)
		name, _ := s.constant()
		c.want(name == strings.TrimPrefix(konst, "Type"), "name of a throbber", konst, pos, fmt.Sprintf("its name is %q", name))
	}

	c.atLeast("symbol is the named glyph", len(glyphs))
	c.atLeast("border set", 32)
	c.atLeast("scrollbar set", 16)
	c.atLeast("throbber set", len(throbbers))
}

// keySequences are the sequences that terminals send for keys: cursor and
// editing keys and function keys of xterm and the VT100, with the modifiers of
// xterm (one more than the sum of shift 1, alt 2 and control 4), of urxvt and
// of the Linux console.
const keySequences = `
ESC[A	KeyUp	-
ESC[B	KeyDown	-
ESC[C	KeyRight	-
ESC[D	KeyLeft	-
ESC[1;2A	KeyShiftUp	-
ESC[1;2B	KeyShiftDown	-
ESC[1;2C	KeyShiftRight	-
ESC[1;2D	KeyShiftLeft	-
ESC[OA	KeyShiftUp	-
ESC[OB	KeyShiftDown	-
ESC[OC	KeyShiftRight	-
ESC[OD	KeyShiftLeft	-
ESC[a	KeyShiftUp	-
ESC[b	KeyShiftDown	-
ESC[c	KeyShiftRight	-
ESC[d	KeyShiftLeft	-
ESC[1;3A	KeyUp	alt
ESC[1;3B	KeyDown	alt
ESC[1;3C	KeyRight	alt
ESC[1;3D	KeyLeft	alt
ESC[1;4A	KeyShiftUp	alt
ESC[1;4B	KeyShiftDown	alt
ESC[1;4C	KeyShiftRight	alt
ESC[1;4D	KeyShiftLeft	alt
ESC[1;5A	KeyCtrlUp	-
ESC[1;5B	KeyCtrlDown	-
ESC[1;5C	KeyCtrlRight	-
ESC[1;5D	KeyCtrlLeft	-
ESC[Oa	KeyCtrlUp	alt
ESC[Ob	KeyCtrlDown	alt
ESC[Oc	KeyCtrlRight	alt
ESC[Od	KeyCtrlLeft	alt
ESC[1;6A	KeyCtrlShiftUp	-
ESC[1;6B	KeyCtrlShiftDown	-
ESC[1;6C	KeyCtrlShiftRight	-
ESC[1;6D	KeyCtrlShiftLeft	-
ESC[1;7A	KeyCtrlUp	alt
ESC[1;7B	KeyCtrlDown	alt
ESC[1;7C	KeyCtrlRight	alt
ESC[1;7D	KeyCtrlLeft	alt
ESC[1;8A	KeyCtrlShiftUp	alt
ESC[1;8B	KeyCtrlShiftDown	alt
ESC[1;8C	KeyCtrlShiftRight	alt
ESC[1;8D	KeyCtrlShiftLeft	alt
ESC[Z	KeyShiftTab	-
ESC[2~	KeyInsert	-
ESC[2;3~	KeyInsert	alt
ESC[3~	KeyDelete	-
ESC[3;3~	KeyDelete	alt
ESC[5~	KeyPgUp	-
ESC[5;3~	KeyPgUp	alt
ESC[5;5~	KeyCtrlPgUp	-
ESC[5^	KeyCtrlPgUp	-
ESC[5;7~	KeyCtrlPgUp	alt
ESC[6~	KeyPgDown	-
ESC[6;3~	KeyPgDown	alt
ESC[6;5~	KeyCtrlPgDown	-
ESC[6^	KeyCtrlPgDown	-
ESC[6;7~	KeyCtrlPgDown	alt
ESC[1~	KeyHome	-
ESC[H	KeyHome	-
ESC[1;3H	KeyHome	alt
ESC[1;5H	KeyCtrlHome	-
ESC[1;7H	KeyCtrlHome	alt
ESC[1;2H	KeyShiftHome	-
ESC[1;4H	KeyShiftHome	alt
ESC[1;6H	KeyCtrlShiftHome	-
ESC[1;8H	KeyCtrlShiftHome	alt
ESC[4~	KeyEnd	-
ESC[F	KeyEnd	-
ESC[1;3F	KeyEnd	alt
ESC[1;5F	KeyCtrlEnd	-
ESC[1;7F	KeyCtrlEnd	alt
ESC[1;2F	KeyShiftEnd	-
ESC[1;4F	KeyShiftEnd	alt
ESC[1;6F	KeyCtrlShiftEnd	-
ESC[1;8F	KeyCtrlShiftEnd	alt
ESC[7~	KeyHome	-
ESC[7^	KeyCtrlHome	-
ESC[7$	KeyShiftHome	-
ESC[7@	KeyCtrlShiftHome	-
ESC[8~	KeyEnd	-
ESC[8^	KeyCtrlEnd	-
ESC[8$	KeyShiftEnd	-
ESC[8@	KeyCtrlShiftEnd	-
ESC[[A	KeyF1	-
ESC[[B	KeyF2	-
ESC[[C	KeyF3	-
ESC[[D	KeyF4	-
ESC[[E	KeyF5	-
ESCOP	KeyF1	-
ESCOQ	KeyF2	-
ESCOR	KeyF3	-
ESCOS	KeyF4	-
ESC[1;3P	KeyF1	alt
ESC[1;3Q	KeyF2	alt
ESC[1;3R	KeyF3	alt
ESC[1;3S	KeyF4	alt
ESC[11~	KeyF1	-
ESC[12~	KeyF2	-
ESC[13~	KeyF3	-
ESC[14~	KeyF4	-
ESC[15~	KeyF5	-
ESC[15;3~	KeyF5	alt
ESC[17~	KeyF6	-
ESC[18~	KeyF7	-
ESC[19~	KeyF8	-
ESC[20~	KeyF9	-
ESC[21~	KeyF10	-
ESC[17;3~	KeyF6	alt
ESC[18;3~	KeyF7	alt
ESC[19;3~	KeyF8	alt
ESC[20;3~	KeyF9	alt
ESC[21;3~	KeyF10	alt
ESC[23~	KeyF11	-
ESC[24~	KeyF12	-
ESC[23;3~	KeyF11	alt
ESC[24;3~	KeyF12	alt
ESC[1;2P	KeyF13	-
ESC[1;2Q	KeyF14	-
ESC[25~	KeyF13	-
ESC[26~	KeyF14	-
ESC[25;3~	KeyF13	alt
ESC[26;3~	KeyF14	alt
ESC[1;2R	KeyF15	-
ESC[1;2S	KeyF16	-
ESC[28~	KeyF15	-
ESC[29~	KeyF16	-
ESC[28;3~	KeyF15	alt
ESC[29;3~	KeyF16	alt
ESC[15;2~	KeyF17	-
ESC[17;2~	KeyF18	-
ESC[18;2~	KeyF19	-
ESC[19;2~	KeyF20	-
ESC[31~	KeyF17	-
ESC[32~	KeyF18	-
ESC[33~	KeyF19	-
ESC[34~	KeyF20	-
ESCOA	KeyUp	-
ESCOB	KeyDown	-
ESCOC	KeyRight	-
ESCOD	KeyLeft	-
`

// keyNamesOf are the names of keys by their constants.
func keyNamesOf() map[string]string {
	m := map[string]string{
		"KeyNull": "ctrl+@", "KeyBreak": "ctrl+c", "KeyEnter": "enter", "KeyBackspace": "backspace", "KeyTab": "tab", "KeyEsc": "esc", "KeyEscape": "esc",
		"KeyCtrlAt": "ctrl+@", "KeyCtrlI": "tab", "KeyCtrlM": "enter", "KeyCtrlOpenBracket": "esc", "KeyCtrlBackslash": "ctrl+\\",
		"KeyCtrlCloseBracket": "ctrl+]", "KeyCtrlCaret": "ctrl+^", "KeyCtrlUnderscore": "ctrl+_", "KeyCtrlQuestionMark": "backspace",
		"KeySpace": " ", "KeyShiftTab": "shift+tab", "KeyDelete": "delete", "KeyInsert": "insert",
	}

	for r := 'A'; r <= 'Z'; r++ {
		if r != 'I' && r != 'M' {
			m["KeyCtrl"+string(r)] = "ctrl+" + strings.ToLower(string(r))
		}
	}

	for _, mod := range []string{"", "Shift", "Ctrl", "CtrlShift"} {
		for _, base := range []string{"Up", "Down", "Left", "Right", "Home", "End"} {
			name := strings.ToLower(base)

			if strings.Contains(mod, "Shift") {
				name = "shift+" + name
			}

			if strings.Contains(mod, "Ctrl") {
				name = "ctrl+" + name
			}

			m["Key"+mod+base] = name
		}
	}

	for _, base := range []string{"PgUp", "PgDown"} {
		m["Key"+base] = strings.ToLower(base)
		m["KeyCtrl"+base] = "ctrl+" + strings.ToLower(base)
	}

	for i := 1; i <= 20; i++ {
		m[fmt.Sprintf("KeyF%d", i)] = fmt.Sprintf("f%d", i)
	}

	return m
}

// controlCodes are the codes of the control keys.
func controlCodes() map[string]int64 {
	m := map[string]int64{
		"KeyNull": 0, "KeyBreak": 3, "KeyEnter": 13, "KeyBackspace": 127, "KeyTab": 9, "KeyEsc": 27, "KeyEscape": 27, "KeyCtrlAt": 0, "KeyCtrlOpenBracket": 27,
		"KeyCtrlBackslash": 28, "KeyCtrlCloseBracket": 29, "KeyCtrlCaret": 30, "KeyCtrlUnderscore": 31, "KeyCtrlQuestionMark": 127,
	}

	for r := int64('A'); r <= 'Z'; r++ {
		m["KeyCtrl"+string(rune(r))] = r - 64
	}

	return m
}

// decoders finds the function that decodes one message from bytes: it takes
// bytes and a flag and returns a count and a message.
func decoderOf(p *Prog) *ssa.Function {
	msg := p.named("", "Msg")

	var found []*ssa.Function

	for _, fn := range p.all {
		s := fn.Signature
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkgPath("") || s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 2 || len(fn.Blocks) == 0 || fn.Parent() != nil {
			continue
		}

		if s.Params().At(0).Type().String() == "[]byte" && types.Identical(s.Params().At(1).Type().Underlying(), types.Typ[types.Bool]) &&
			types.Identical(s.Results().At(0).Type(), types.Typ[types.Int]) && types.Identical(s.Results().At(1).Type(), msg) {
			found = append(found, fn)
		}
	}

	// the one that the others do not call
	var roots []*ssa.Function

	for _, fn := range found {
		called := false

		for _, g := range found {
			if g == fn {
				continue
			}

			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn {
						called = true
					}
				}
			}
		}

		if !called {
			roots = append(roots, fn)
		}
	}

	if len(roots) != 1 {
		anchorf("%d functions decode a message from bytes", len(roots))
	}

	return roots[0]
}

func (st *State) newBytes(s string) Val {
	var vs []Val
	for i := 0; i < len(s); i++ {
		vs = append(vs, Num{linC(int64(s[i]))})
	}

	return st.newSlice(types.Typ[types.Byte], vs)
}

// sampleInputs are the sequences of all keys, control characters and reports.
func sampleInputs() []string {
	out := []string{"\x1b", "\x1b\x1b", " ", "\x1b ", "a", "\x1bab", "ab c", "\x1b[200~a b\x1b[201~", "\x1b[I", "\x1b[O", "\x1b[M   ", "\x1b[<0;1;1M", "\x1b[999z", "\xff"}

	for _, l := range strings.Split(strings.TrimSpace(keySequences), "\n") {
		f := strings.Split(l, "\t")
		out = append(out, strings.ReplaceAll(f[0], "ESC", "\x1b"))
	}

	for i := 0; i < 32; i++ {
		out = append(out, string([]byte{byte(i)}))
	}

	return out
}

func checkI02(c *Check) {
	p := c.prog("linux")
	key, msgT := p.named("", "Key"), p.named("", "KeyMsg")
	kind := p.named("", "KeyType")
	code := func(name string) int64 {
		k := p.scoped("", name)
		if !types.Identical(k.Type(), kind) {
			anchorf("%s is not a key", name)
		}

		v, _ := constant.Int64Val(k.Val())

		return v
	}

	// constants and names
	for name, want := range controlCodes() {
		c.want(code(name) == want, "code of a control key", name, p.pos(p.scoped("", name).Pos()), fmt.Sprintf("its code is %d instead of %d", code(name), want))
	}

	keyString := p.methodOf(key, "String")
	expect := keyNamesOf()

	scope := p.pkg("").Pkg.Scope()
	byName := map[string]int64{}

	for _, n := range scope.Names() {
		k, ok := scope.Lookup(n).(*types.Const)
		if !ok || !types.Identical(k.Type(), kind) || !k.Exported() || n == "KeyRunes" {
			continue
		}

		for _, alt := range []bool{false, true} {
			a := newAI(c, p)
			st := a.newState()
			v := a.zeroVal(key).(Tup)
			fs := append([]Val(nil), v.fs...)
			fs[fieldIdx(key, "Type")] = Num{linC(code(n))}
			fs[fieldIdx(key, "Alt")] = Boo{bddConst(alt)}

			got := "?"

			outs := a.exec(keyString, st, Tup{fs})
			if len(outs) == 1 && !outs[0].panic {
				if s, ok := outs[0].vals[0].(Str); ok {
					got, _ = s.constant()
				}
			}

			a.notesFail("undecided")

			if alt {
				c.want(strings.HasPrefix(got, "alt+"), "name of a key with alt", n, p.pos(keyString.Pos()), fmt.Sprintf("it is %q", got))
				got = strings.TrimPrefix(got, "alt+")
			}

			if want, ok := expect[n]; ok {
				c.want(got == want, "name of a key", n, p.pos(keyString.Pos()), fmt.Sprintf("it is %q instead of %q", got, want))
			}

			if other, ok := byName[got]; ok && other != code(n) || got == "" {
				c.fail("keys have a name of their own", n, p.pos(k.Pos()), fmt.Sprintf("its name is %q", got))
			} else {
				c.ok("keys have a name of their own", n, p.pos(k.Pos()))
			}

			byName[got] = code(n)
		}
	}

	// sequences
	fn := decoderOf(p)
	where := p.pos(fn.Pos())
	decode := func(rule, name, input string, more bool, want func(st *State, v Val, n int64) string) {
		a := newAI(c, p)
		a.peel, a.maxNodes = 64, 64
		st := a.newState()

		outs := a.exec(fn, st, st.newBytes(input), Boo{bddConst(more)})
		why := ""

		if len(outs) == 0 {
			why = "nothing is returned"
		}

		for _, o := range outs {
			if o.panic {
				why = "it panics"
				break
			}

			n, ok := numOf(o.vals[0]).isConst()
			if !ok {
				why = "the number of bytes consumed could not be determined"
				break
			}

			if why = want(o.st, o.vals[1], n); why != "" {
				break
			}
		}

		c.want(why == "", rule, name, where, why)
		a.notesFail("undecided")
	}

	isKey := func(length int, typ int64, alt bool, runes string, paste bool) func(st *State, v Val, n int64) string {
		return func(st *State, v Val, n int64) string {
			i, ok := v.(Ifc)
			if !ok || i.typ == nil || !types.Identical(i.typ, msgT) {
				return "it is decoded to " + showVal(v) + " instead of a key"
			}

			t := i.val.(Tup)

			var got string

			es, ok := st.elemsOf(t.fs[fieldIdx(msgT, "Runes")])
			for _, e := range es {
				r, isC := numOf(e).isConst()
				ok = ok && isC
				got += string(rune(r))
			}

			switch {
			case n != int64(length):
				return fmt.Sprintf("%d bytes of it are consumed", n)
			case !st.provesEQ(numOf(t.fs[fieldIdx(msgT, "Type")]).addConst(-typ)):
				return fmt.Sprintf("it is decoded to key %s instead of %d", showVal(t.fs[fieldIdx(msgT, "Type")]), typ)
			case st.decide(boolOf(t.fs[fieldIdx(msgT, "Alt")])) != map[bool]int{false: 0, true: 1}[alt]:
				return fmt.Sprintf("it is not decoded with alt being %v", alt)
			case st.decide(boolOf(t.fs[fieldIdx(msgT, "Paste")])) != map[bool]int{false: 0, true: 1}[paste]:
				return fmt.Sprintf("it is not decoded with paste being %v", paste)
			case !ok || got != runes:
				return fmt.Sprintf("its runes are %q instead of %q", got, runes)
			}

			return ""
		}
	}

	for _, l := range strings.Split(strings.TrimSpace(keySequences), "\n") {
		f := strings.Split(l, "\t")
		seq := strings.ReplaceAll(f[0], "ESC", "\x1b")
		alt := f[2] == "alt"

		decode("sequence of a key", f[0], seq, false, isKey(len(seq), code(f[1]), alt, "", false))
		decode("sequence of a key followed by another", f[0], seq+"\x1b[A", false, isKey(len(seq), code(f[1]), alt, "", false))

		if !alt {
			decode("sequence of a key with alt", f[0], "\x1b"+seq, false, isKey(len(seq)+1, code(f[1]), true, "", false))
		}
	}

	for i := int64(0); i <= 127; i++ {
		if i > 31 && i < 127 || i == 27 {
			continue
		}

		decode("control character", fmt.Sprint(i), string([]byte{byte(i)}), false, isKey(1, i, false, "", false))
		decode("control character with alt", fmt.Sprint(i), string([]byte{27, byte(i)}), false, isKey(2, i, true, "", false))
	}

	decode("other input", "escape", "\x1b", false, isKey(1, 27, false, "", false))
	decode("other input", "alt+escape", "\x1b\x1b", false, isKey(2, 27, true, "", false))
	decode("other input", "space", " ", false, isKey(1, code("KeySpace"), false, " ", false))
	decode("other input", "alt+space", "\x1b ", false, isKey(2, code("KeySpace"), true, " ", false))
	decode("other input", "rune", "a", false, isKey(1, code("KeyRunes"), false, "a", false))
	decode("other input", "alt+rune", "\x1ba", false, isKey(2, code("KeyRunes"), true, "a", false))
	decode("other input", "alt+rune and another", "\x1bab", false, isKey(2, code("KeyRunes"), true, "a", false))
	decode("other input", "runes", "a\u00e9\u4e16!", false, isKey(7, code("KeyRunes"), false, "a\u00e9\u4e16!", false))
	decode("other input", "runes and a key", "ab\x1b[A", false, isKey(2, code("KeyRunes"), false, "ab", false))
	decode("other input", "runes and a space", "ab cd", false, isKey(2, code("KeyRunes"), false, "ab", false))
	decode("other input", "paste", "\x1b[200~a\x1b[A \r\x1b[201~bc", false, isKey(18, code("KeyRunes"), false, "a\x1b[A \r", true))
	decode("other input", "empty paste", "\x1b[200~\x1b[201~", false, isKey(12, code("KeyRunes"), false, "", true))

	for name, input := range map[string]string{"FocusMsg": "\x1b[I", "BlurMsg": "\x1b[O"} {
		t := p.named("", name)

		for _, tail := range []string{"", "x", "\x1b[A"} {
			decode("focus report", name+" before "+fmt.Sprintf("%q", tail), input+tail, false, func(st *State, v Val, n int64) string {
				if i, ok := v.(Ifc); !ok || i.typ == nil || !types.Identical(i.typ, t) || n != 3 {
					return fmt.Sprintf("it is decoded to %s with %d bytes", showVal(v), n)
				}

				return ""
			})
		}
	}

	c.atLeast("sequence of a key", 142)
	c.atLeast("control character", 32)
	c.atLeast("keys have a name of their own", 80)
	c.assume("sequences are read whole (how they are cut into reads is left to I01 and N03)")
}
