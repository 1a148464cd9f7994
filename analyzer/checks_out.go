package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register("T03", checkT03)
	register("T04", checkT04)
	register("T05", checkT05)
}

// The output harness: the default backend is interpreted with an unknown
// output; what it writes is followed as a string of constants, numbers and
// unknown strings (symbols of cells, sequences of colours).
type outp struct {
	*ai
	fail bool // writes may fail

	// the terminal that reads the output, if not nil: called for every token
	screen func(st *State, tok outTok)
}

// outTok is a control sequence, with its parameters, or printed text.
type outTok struct {
	final byte // 0: text
	text  Str  // or the parameters
}

func strParts(s Str) []strPart { return s.parts }

func outGV(st *State, k string) Str {
	s, _ := st.gv[k].(Str)
	return s
}

func newOutp(c *Check, p *Prog) *outp {
	o := &outp{ai: newAI(c, p)}
	o.maxNodes = 5000
	useBits(pkgPath("") + ".Modifier")
	o.bitsUsed = 0
	o.hooks.call = o.call

	return o
}

// write adds to the output; direct writes overtake what is buffered.
func (o *outp) write(c *CallCtx, w Val, s Str) (bool, []Outcome) {
	st := c.st

	results := func(st *State, err Ifc) []Val {
		n := c.sig.Results().Len()

		var vs []Val
		for i := 0; i < n-1; i++ {
			vs = append(vs, o.fresh(st, c.sig.Results().At(i).Type(), freshName("written")))
		}

		if n > 0 {
			vs = append(vs, err)
		}

		return vs
	}

	var outs []Outcome

	if o.fail && c.sig.Results().Len() > 0 {
		f := st.fork()
		f.setGV("failed", Boo{bddTrue})
		outs = append(outs, Outcome{st: f, vals: results(f, Ifc{nil_: bddFalse, term: "write error", errs: ",write,"})})
	}

	if i, ok := w.(Ifc); ok && i.typ != nil && isNamed(i.typ, "bufio", "Writer") {
		st.setGV("pending", outGV(st, "pending").cat(s))
	} else if p := outGV(st, "pending"); len(p.parts) > 0 {
		st.setGV("overtaken", Boo{bddTrue})
		st.setGV("out", outGV(st, "out").cat(s))
	} else {
		st.setGV("out", outGV(st, "out").cat(s))
	}

	if o.screen != nil {
		o.feed(st, s)
	}

	return true, append(outs, Outcome{st: st, vals: results(st, Ifc{nil_: bddTrue})})
}

// feed passes complete tokens to the screen.
func (o *outp) feed(st *State, s Str) {
	rest := outGV(st, "unparsed").cat(s)
	toks, left, ok := tokenize(rest)

	if !ok {
		o.noteOnce("output that is no control sequence: " + rest.String())
	}

	if len(left.parts) == 0 {
		st.setGV("unparsed", nil)
	} else {
		st.setGV("unparsed", left)
	}

	// what was written is not needed any more
	st.setGV("pending", nil)
	st.setGV("out", nil)

	for _, t := range toks {
		o.screen(st, t)
	}
}

func tokenize(s Str) (toks []outTok, left Str, ok bool) {
	type atom struct {
		b byte
		p *strPart
	}

	var as []atom

	for i := range s.parts {
		p := s.parts[i]
		if p.term != "" || p.num != nil {
			as = append(as, atom{p: &p})
			continue
		}

		for k := 0; k < len(p.c); k++ {
			as = append(as, atom{b: p.c[k]})
		}
	}

	str := func(as []atom) Str {
		r := Str{}

		for _, a := range as {
			if a.p != nil {
				r = r.cat(Str{[]strPart{*a.p}})
			} else {
				r = r.cat(strC(string([]byte{a.b})))
			}
		}

		return r
	}

	i := 0

	for i < len(as) {
		if as[i].p != nil || as[i].b != '\x1b' {
			k := i
			for k < len(as) && (as[k].p != nil || as[k].b != '\x1b') {
				k++
			}

			toks = append(toks, outTok{text: str(as[i:k])})
			i = k

			continue
		}

		if i+1 >= len(as) {
			return toks, str(as[i:]), true
		}

		if as[i+1].p != nil || as[i+1].b != '[' {
			return toks, Str{}, false
		}

		k := i + 2
		for k < len(as) && (as[k].p != nil || as[k].b < '@' || as[k].b > '~') {
			k++
		}

		if k >= len(as) {
			return toks, str(as[i:]), true
		}

		toks = append(toks, outTok{final: as[k].b, text: str(as[i+2 : k])})
		i = k + 1
	}

	return toks, Str{}, true
}

// params splits parameters at semicolons.
func params(s Str) []Str {
	out := []Str{{}}

	for _, p := range s.parts {
		if p.term != "" || p.num != nil {
			out[len(out)-1] = out[len(out)-1].cat(Str{[]strPart{p}})
			continue
		}

		for i, f := range strings.Split(p.c, ";") {
			if i > 0 {
				out = append(out, Str{})
			}

			out[len(out)-1] = out[len(out)-1].cat(strC(f))
		}
	}

	return out
}

func paramNum(s Str) (Lin, bool) {
	if len(s.parts) == 0 {
		return linC(1), true
	}

	if len(s.parts) == 1 && s.parts[0].num != nil {
		return *s.parts[0].num, true
	}

	if k, ok := s.constant(); ok {
		n, err := strconv.Atoi(k)
		return linC(int64(n)), err == nil
	}

	return Lin{}, false
}

func (o *outp) bytesToStr(st *State, v Val) (Str, bool) {
	if s, ok := v.(Str); ok {
		return s, true
	}

	es, ok := st.elemsOf(v)
	if !ok {
		return Str{}, false
	}

	var b []byte

	for _, e := range es {
		n, ok := constInt(e)
		if !ok {
			return Str{}, false
		}

		b = append(b, byte(n))
	}

	return strC(string(b)), true
}

func (o *outp) call(c *CallCtx) (bool, []Outcome) {
	st := c.st

	lost := func() (bool, []Outcome) {
		o.noteOnce("what is written at " + c.pos())
		return false, nil
	}

	switch c.name {
	case "fmt.Fprint", "fmt.Fprintf":
		f := ""
		k := 1

		if c.name == "fmt.Fprintf" {
			s, ok := c.args[1].(Str)
			if f, ok = s.constant(); !ok {
				return lost()
			}

			k = 2
		}

		es, ok := st.elemsOf(c.args[k])
		if !ok {
			return lost()
		}

		s, ok := o.format(st, f, es, k == 2)
		if !ok {
			return lost()
		}

		return o.write(c, c.args[0], s)
	case "io.WriteString", "iface:io.StringWriter.WriteString", "bufio.Writer.WriteString", "iface:io.Writer.Write", "bufio.Writer.Write",
		"bufio.Writer.WriteByte", "bufio.Writer.WriteRune":
		w := c.args[0]
		if strings.HasPrefix(c.name, "bufio.") {
			w = Ifc{nil_: bddFalse, typ: c.callee.Signature.Recv().Type(), val: w}
		}

		var s Str

		ok := true

		switch c.args[1].(type) {
		case Num, BV:
			n, good := constInt(c.args[1])
			ok = good
			s = strC(string(rune(n)))
		default:
			s, ok = o.bytesToStr(st, c.args[1])
		}

		if !ok {
			return lost()
		}

		return o.write(c, w, s)
	case "bufio.Writer.Flush":
		var outs []Outcome

		if o.fail {
			f := st.fork()
			f.setGV("failed", Boo{bddTrue})
			outs = append(outs, Outcome{st: f, vals: []Val{Ifc{nil_: bddFalse, term: "flush error", errs: ",flush,"}}})
		}

		st.setGV("out", outGV(st, "out").cat(outGV(st, "pending")))
		st.setGV("pending", nil)
		st.setGV("flushes", Boo{bddTrue})

		return true, append(outs, Outcome{st: st, vals: []Val{Ifc{nil_: bddTrue}}})
	case "bufio.NewWriter", "bufio.NewWriterSize":
		v := o.fresh(st, c.sig.Results().At(0).Type(), "bufio("+valKey(c.args[0])+")")
		if q, ok := v.(Ptr); ok {
			q.nil_ = bddFalse
			v = q
		}

		return c.ret(v)
	}

	// colours
	switch {
	case strings.HasPrefix(c.name, "github.com/muesli/termenv.") && strings.HasSuffix(c.name, ".Convert") && len(c.args) == 2:
		return c.ret(o.converted(c.args[1]))
	case strings.HasSuffix(c.name, ".Sequence") && len(c.args) == 2 && (strings.HasPrefix(c.name, "iface:") || strings.HasPrefix(c.name, "github.com/muesli/termenv.")):
		if strings.HasSuffix(c.name, "NoColor.Sequence") {
			return c.ret(Str{})
		}

		b, ok := c.args[1].(Boo)
		if !ok || !b.b.isConst() {
			return lost()
		}

		kind := "fg"
		if b.b == bddTrue {
			kind = "bg"
		}

		return c.ret(Str{[]strPart{{term: kind + "=" + colourKey(c.args[0])}}})
	}

	return false, nil
}

func colourKey(v Val) string {
	if i, ok := v.(Ifc); ok && i.typ == nil {
		return i.term
	}

	return valKey(v)
}

// converted is the form of a colour that the profile of the output has.
func (o *outp) converted(v Val) Ifc {
	k := "conv(" + colourKey(v) + ")"
	return Ifc{nil_: nilAtom(k), term: k}
}

// backendVal makes a default backend with an unknown input and output.
func (o *outp) newBackend(st *State) []Outcome {
	fn := o.p.fn("", "NewDefaultBackend")

	in := Ifc{nil_: bddFalse, term: "input"}
	out := Ifc{nil_: bddFalse, term: "output"}

	return live(o.exec(fn, st, in, out))
}

// onBackend runs a method of a new default backend.
func (o *outp) onBackend(name string, args func(st *State) []Val) []Outcome {
	fn := o.p.methodOf(types.NewPointer(o.p.named("", "DefaultBackend")), name)

	var outs []Outcome

	for _, b := range o.newBackend(o.newState()) {
		if b.panic {
			continue
		}

		id := b.st.newVar(o.p.named("", "DefaultBackend"), b.vals[0], "backend")

		var as []Val
		if args != nil {
			as = args(b.st)
		}

		outs = append(outs, o.exec(fn, b.st, append([]Val{Ptr{obj: id, nil_: bddFalse}}, as...)...)...)
	}

	return outs
}

// onTerminal runs a method of a terminal with a default backend.
func (o *outp) onTerminal(name string, args func(st *State) []Val) []Outcome {
	fn := o.p.methodOf(types.NewPointer(o.p.named("", "Terminal")), name)
	bt := o.p.named("", "DefaultBackend")

	var outs []Outcome

	for _, b := range o.newBackend(o.newState()) {
		if b.panic {
			continue
		}

		id := b.st.newVar(bt, b.vals[0], "backend")
		backend := Ifc{nil_: bddFalse, typ: types.NewPointer(bt), val: Ptr{obj: id, nil_: bddFalse}}

		t := o.fresh(b.st, o.p.named("", "Terminal"), "terminal").(Tup)
		t = Tup{append([]Val(nil), t.fs...)}

		s := o.p.named("", "Terminal").Underlying().(*types.Struct)
		n := 0

		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), o.p.named("", "TerminalBackend")) {
				t.fs[i] = backend
				n++
			}
		}

		if n != 1 {
			anchorf("Terminal has %d fields of type TerminalBackend", n)
		}

		tid := b.st.newVar(o.p.named("", "Terminal"), t, "terminal")

		var as []Val
		if args != nil {
			as = args(b.st)
		}

		outs = append(outs, o.exec(fn, b.st, append([]Val{Ptr{obj: tid, nil_: bddFalse}}, as...)...)...)
	}

	return outs
}

// errOf is the last result: 1 an error, 0 success, -1 unknown.
func errOf(o Outcome) int {
	if len(o.vals) == 0 {
		return 0
	}

	switch e := o.vals[len(o.vals)-1].(type) {
	case Ifc:
		switch o.st.decide(e.nil_) {
		case 1:
			return 0
		case 0:
			return 1
		}
	}

	return -1
}

func checkT04(c *Check) {
	p := c.prog("linux")

	csi := func(s string) []Str { return []Str{strC("\x1b[" + s)} }
	pos := func(st *State) []Val {
		x, y := linS(symOf("pos.x")), linS(symOf("pos.y"))
		return []Val{posVal(p, Num{x}, Num{y})}
	}
	xy := Str{}.cat(strC("\x1b[")).cat(itoaStr(linS(symOf("pos.y")).addConst(1))).cat(strC(";")).cat(itoaStr(linS(symOf("pos.x")).addConst(1))).cat(strC("H"))

	decide := func(rule, name string, o *outp, where string, outs []Outcome, want []Str, mayFail bool) {
		if len(outs) == 0 {
			c.fail(rule, name, where, "no path through it could be followed")
			return
		}

		done := 0
		why := ""

		for _, r := range outs {
			if r.panic {
				why = "it may panic"
				continue
			}

			_, failed := r.st.gv["failed"]
			e := errOf(r)

			switch {
			case failed && e != 1:
				why = "an error of writing or flushing is not returned"
			case !failed && e == 1:
				why = "an error is returned although everything was written"
			case failed:
			case e < 0:
				why = "it cannot be decided whether an error is returned"
			default:
				done++

				got := outGV(r.st, "out")
				hit := false

				for _, w := range want {
					hit = hit || w.key() == got.key()
				}

				switch {
				case len(outGV(r.st, "pending").parts) > 0:
					why = "what is written is not flushed: " + outGV(r.st, "pending").String()
				case !hit:
					why = fmt.Sprintf("writes %s, not %s", got, want[0])
				}
			}
		}

		if why == "" && done == 0 {
			why = "it never succeeds"
		}

		c.want(why == "", rule, name, where, why)
		o.notesFail(rule + " undecided")
	}

	backendOps := []struct {
		name string
		args func(st *State) []Val
		want []Str
	}{
		{"HideCursor", nil, csi("?25l")},
		{"ShowCursor", nil, csi("?25h")},
		{"SetCursorPosition", pos, []Str{xy}},
		{"ClearAll", nil, csi("2J")},
		{"ClearAfterCursor", nil, append(csi("J"), csi("0J")...)},
		{"ClearBeforeCursor", nil, csi("1J")},
		{"ClearCurrentLine", nil, csi("2K")},
		{"ClearUntilNewLine", nil, append(csi("K"), csi("0K")...)},
		{"EnableAlternateScreen", nil, csi("?1049h")},
		{"LeaveAlternateScreen", nil, csi("?1049l")},
		{"EnableBracketedPaste", nil, csi("?2004h")},
		{"DisableBracketedPaste", nil, csi("?2004l")},
	}

	for _, op := range backendOps {
		o := newOutp(c, p)
		o.fail = true
		fn := p.methodOf(types.NewPointer(p.named("", "DefaultBackend")), op.name)
		decide("operation writes its sequence", "DefaultBackend."+op.name, o, p.pos(fn.Pos()), o.onBackend(op.name, op.args), op.want, true)
	}

	for _, op := range backendOps {
		switch op.name {
		case "ClearAll", "ClearAfterCursor", "ClearBeforeCursor", "ClearCurrentLine", "ClearUntilNewLine":
			continue
		}

		o := newOutp(c, p)
		o.fail = true
		fn := p.methodOf(types.NewPointer(p.named("", "Terminal")), op.name)
		decide("operation writes its sequence", "Terminal."+op.name, o, p.pos(fn.Pos()), o.onTerminal(op.name, op.args), op.want, true)
	}

	// the commands
	sp := p.pkg("internal/ansi")
	sc := sp.Pkg.Scope()

	attrs := map[string]string{
		"AttrReset": "0", "AttrBold": "1", "AttrDim": "2", "AttrItalic": "3", "AttrUnderlined": "4", "AttrDoubleUnderlined": "4:2",
		"AttrUndercurled": "4:3", "AttrUnderdotted": "4:4", "AttrUnderdashed": "4:5", "AttrSlowBlink": "5", "AttrRapidBlink": "6",
		"AttrReverse": "7", "AttrHidden": "8", "AttrCrossedOut": "9", "AttrFraktur": "20", "AttrNoBold": "21", "AttrNormalIntensity": "22",
		"AttrNoItalic": "23", "AttrNoUnderline": "24", "AttrNoBlink": "25", "AttrNoReverse": "27", "AttrNoHidden": "28",
		"AttrNotCrossedOut": "29", "AttrFramed": "51", "AttrEncircled": "52", "AttrOverLined": "53", "AttrNotFramedOrEncircled": "54",
		"AttrNotOverLined": "55",
	}

	command := func(tname, label string, val func(st *State, t *types.Named) Val, want []Str) {
		tn, ok := sc.Lookup(tname).(*types.TypeName)
		if !ok {
			return
		}

		t, ok := tn.Type().(*types.Named)
		if !ok {
			return
		}

		obj, _, _ := types.LookupFieldOrMethod(t, true, sp.Pkg, "WriteANSI")

		m, ok := obj.(*types.Func)
		if !ok {
			return
		}

		fn := p.prog.FuncValue(m)
		if fn == nil {
			return
		}

		o := newOutp(c, p)
		o.fail = true
		st := o.newState()
		r, _ := o.recv(fn, st, val(st, t))
		outs := o.exec(fn, st, r, Ifc{nil_: bddFalse, term: "output"})
		decide("command writes its sequence", "ansi."+tname+label, o, p.pos(fn.Pos()), outs, want, true)
	}

	command("MoveTo", "", func(st *State, t *types.Named) Val {
		v := Tup{append([]Val(nil), newAI(c, p).zeroVal(t).(Tup).fs...)}
		v.fs[fieldIdx(t, "Column")] = Num{linS(symOf("pos.x"))}
		v.fs[fieldIdx(t, "Row")] = Num{linS(symOf("pos.y"))}

		return v
	}, []Str{xy})

	for _, s := range []struct{ t, seq string }{
		{"ShowCursor", "?25h"}, {"HideCursor", "?25l"}, {"ClearAll", "2J"}, {"ClearAfterCursor", "J"}, {"ClearBeforeCursor", "1J"},
		{"ClearCurrentLine", "2K"}, {"ClearUntilNewLine", "K"}, {"EnterAlternateScreen", "?1049h"}, {"LeaveAlternateScreen", "?1049l"},
		{"EnableBracketedPaste", "?2004h"}, {"DisableBracketedPaste", "?2004l"},
	} {
		command(s.t, "", func(st *State, t *types.Named) Val { return newAI(c, p).zeroVal(t) }, csi(s.seq))
	}

	command("Print", "", func(st *State, t *types.Named) Val { return Str{[]strPart{{term: "text"}}} }, []Str{{[]strPart{{term: "text"}}}})

	var names []string
	for n := range attrs {
		names = append(names, n)
	}

	sort.Strings(names)

	for _, n := range names {
		k, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}

		i, ok := constant.Int64Val(constant.ToInt(k.Val()))
		if !ok {
			continue
		}

		command("SetAttribute", "("+n+")", func(st *State, t *types.Named) Val { return Num{linC(i)} }, csi(attrs[n]+"m"))
	}

	col := func(n string) Ifc { return Ifc{nil_: bddFalse, term: n} }
	part := func(s string) Str { return Str{[]strPart{{term: s}}} }

	for _, k := range []struct {
		label  string
		fg, bg Val
		want   Str
	}{
		{"(both)", col("c1"), col("c2"), strC("\x1b[").cat(part("fg=c1")).cat(strC(";")).cat(part("bg=c2")).cat(strC("m"))},
		{"(foreground)", col("c1"), Ifc{nil_: bddTrue}, strC("\x1b[").cat(part("fg=c1")).cat(strC("m"))},
		{"(background)", Ifc{nil_: bddTrue}, col("c2"), strC("\x1b[").cat(part("bg=c2")).cat(strC("m"))},
		{"(none)", Ifc{nil_: bddTrue}, Ifc{nil_: bddTrue}, Str{}},
	} {
		command("SetColors", k.label, func(st *State, t *types.Named) Val {
			s, ok := t.Underlying().(*types.Struct)
			if !ok || s.NumFields() != 2 {
				return newAI(c, p).zeroVal(t)
			}

			v := Tup{make([]Val, 2)}
			v.fs[fieldIdx(t, "Foreground")] = k.fg
			v.fs[fieldIdx(t, "Background")] = k.bg

			return v
		}, []Str{k.want})
	}

	// the default colour
	o := newOutp(c, p)
	if m := p.methodOf(p.named("", "ResetColor"), "Sequence"); m != nil {
		for bg, want := range map[bool]string{false: "39", true: "49"} {
			st := o.newState()
			why := "it does not return"

			for _, r := range o.exec(m, st, o.zeroVal(p.named("", "ResetColor")), Boo{bddConst(bg)}) {
				why = ""

				if r.panic || !r.st.same(r.vals[0], strC(want)) {
					why = "its sequence is " + showVal(r.vals[0]) + ", not " + want
				}
			}

			c.want(why == "", "default colour", fmt.Sprintf("ResetColor background=%v", bg), p.pos(m.Pos()), why)
		}
	}

	c.atLeast("operation writes its sequence", 19)
	c.atLeast("default colour", 2)
	c.assume("what the operating system does with the bytes, and the buffer of bufio.Writer, behave as documented")
}

func itoaStr(l Lin) Str { return itoa(Num{l}) }

func posVal(p *Prog, x, y Val) Val {
	t := p.named("", "Position")
	v := Tup{make([]Val, t.Underlying().(*types.Struct).NumFields())}
	v.fs[fieldIdx(t, "X")] = x
	v.fs[fieldIdx(t, "Y")] = y

	return v
}
