package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("T01", checkT01)
	register("T02", checkT02)
	register("T06", checkT06)
}

// frames interprets the terminal in front of an unknown backend and widget;
// buffers are only told apart.
type frames struct {
	*ai
	failing bool // operations of the backend may fail
	rt      *types.Pointer
	cursor  bool // the frame asks for a cursor
	bufs    map[string]string
}

func newFrames(c *Check, p *Prog) *frames {
	f := &frames{ai: newAI(c, p), rt: types.NewPointer(p.named("", "Terminal")), bufs: map[string]string{}}
	f.maxNodes = 2000
	f.hooks.call = f.call

	return f
}

func (f *frames) ev(st *State, e string) {
	if st.ghost != "" {
		st.ghost += ";"
	}

	st.ghost += e
}

func (f *frames) events(st *State) []string { return splitTop(st.ghost, ';') }

// buf names a buffer.
func (f *frames) buf(v Val) string {
	k := valKey(v)
	if f.bufs[k] == "" {
		f.bufs[k] = fmt.Sprintf("buffer%d", len(f.bufs))
	}

	return f.bufs[k]
}

func (f *frames) rectArea(v Val) string {
	k := valKey(v)
	if f.bufs[k] == "" {
		f.bufs[k] = fmt.Sprintf("value%d", len(f.bufs))
	}

	return f.bufs[k]
}

func (f *frames) fallible(c *CallCtx, name string) (bool, []Outcome) {
	var outs []Outcome

	n := c.sig.Results().Len()

	mk := func(st *State, err Ifc) []Val {
		var vs []Val
		for i := 0; i < n-1; i++ {
			vs = append(vs, f.fresh(st, c.sig.Results().At(i).Type(), name+fmt.Sprint(i)))
		}

		if n > 0 {
			vs = append(vs, err)
		}

		return vs
	}

	if f.failing && n > 0 && isErrorType(c.sig.Results().At(n-1).Type()) {
		g := c.st.fork()
		f.ev(g, "failed")
		outs = append(outs, Outcome{st: g, vals: mk(g, Ifc{nil_: bddFalse, term: "error of " + name, errs: "," + name + ","})})
	}

	return true, append(outs, Outcome{st: c.st, vals: mk(c.st, Ifc{nil_: bddTrue})})
}

func (f *frames) call(c *CallCtx) (bool, []Outcome) {
	st := c.st
	root := pkgPath("")

	if op, ok := strings.CutPrefix(c.name, "iface:"+root+".TerminalBackend."); ok {
		e := "backend." + op

		for _, a := range c.args[1:] {
			e += "(" + f.rectArea(a) + ")"
		}

		f.ev(st, e)

		return f.fallible(c, op)
	}

	switch c.name {
	case "iface:" + root + ".Widget.Render":
		f.ev(st, "render("+f.buf(c.args[2])+","+f.rectArea(c.args[1])+")")
		return c.ret()
	case root + ".Buffer.Diff":
		other := c.args[1]
		if t, ok := other.(Tup); ok {
			_ = t
			return false, nil
		}

		term := "diff(" + f.buf(c.args[0]) + "," + f.buf(other) + ")"
		v := f.fresh(st, c.sig.Results().At(0).Type(), term)
		f.ev(st, "diff("+f.buf(c.args[0])+","+f.buf(other)+")="+f.rectArea(v))

		return c.ret(v)
	case root + ".Buffer.Reset":
		f.ev(st, "reset("+f.buf(c.args[0])+")")
		return c.ret()
	case root + ".Buffer.Resize":
		f.ev(st, "resize("+f.buf(c.args[0])+","+f.rectArea(c.args[1])+")")

		if p, ok := c.args[0].(Ptr); ok {
			v, good := f.load(st, p, f.p.named("", "Buffer")).(Tup)
			if good {
				if t := f.withArea(v, c.args[1]); t != nil {
					f.Interp.store(c.fr, st, c.instr, p, *t)
				}
			}
		}

		return c.ret()
	case root + ".NewBufferEmpty", root + ".NewBufferFilled":
		b := f.withArea(f.fresh(st, f.p.named("", "Buffer"), freshName("buffer")).(Tup), c.args[0])
		if b == nil {
			return false, nil
		}

		f.ev(st, "new("+f.rectArea(c.args[0])+")")

		return c.ret(*b)
	case root + ".Terminal.GetFrame":
		if !f.cursor || f.quiet > 0 {
			return false, nil
		}

		f.cursor = false

		var outs []Outcome

		for _, o := range f.run(c.callee, c.args, nil, st, c.fr, c.instr, false) {
			t, ok := o.vals[0].(Tup)
			if !ok || o.panic {
				continue
			}

			t = Tup{append([]Val(nil), t.fs...)}
			s := f.p.named("", "Frame").Underlying().(*types.Struct)
			pos := f.p.named("", "Position")

			for i := 0; i < s.NumFields(); i++ {
				if q, ok := s.Field(i).Type().(*types.Pointer); ok && types.Identical(q.Elem(), pos) {
					id := o.st.newVar(pos, posVal(f.p, Num{linS(symOf("cursor.x"))}, Num{linS(symOf("cursor.y"))}), "cursor")
					t.fs[i] = Ptr{obj: id, nil_: bddFalse}
				}
			}

			o.vals = []Val{t}
			outs = append(outs, o)
		}

		f.cursor = true

		return true, outs
	}

	return false, nil
}

// withArea replaces the area of a buffer.
func (f *frames) withArea(v Tup, area Val) *Tup {
	s := f.p.named("", "Buffer").Underlying().(*types.Struct)
	rect := f.p.named("", "Rect")

	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), rect) {
			t := Tup{append([]Val(nil), v.fs...)}
			t.fs[i] = area

			return &t
		}
	}

	return nil
}

func (f *frames) method(name string) func(st *State, recv Val, args ...Val) []Outcome {
	fn := f.p.methodOf(f.rt, name)

	return func(st *State, recv Val, args ...Val) []Outcome {
		r := recv
		if t := recvType(fn); t != nil && !isPtr(t) {
			r = st.at(recv)
		}

		return live(f.exec(fn, st, append([]Val{r}, args...)...))
	}
}

type termState struct {
	st        *State
	t         Val
	cur, prev string
	area      Val
}

func (f *frames) rect(x, y, w, h Val) Val {
	rect := f.p.named("", "Rect")
	v := Tup{append([]Val(nil), f.zeroVal(rect).(Tup).fs...)}
	v.fs[fieldIdx(rect, "Width")], v.fs[fieldIdx(rect, "Height")] = w, h
	v.fs[fieldIdx(rect, "Position")] = posVal(f.p, x, y)

	return v
}

// start makes a new terminal; none of its operations fail.
func (f *frames) start(viewport string) []termState {
	fn := f.p.fn("", "NewTerminal")
	st := f.newState()

	failing := f.failing
	f.failing = false

	vt := f.p.named("", viewport)
	v := f.zeroVal(vt)

	if viewport == "ViewportFixed" {
		z := f.rect(Num{linC(3)}, Num{linC(4)}, Num{linC(7)}, Num{linC(2)})
		v = z
	}

	var out []termState

	for _, o := range live(f.exec(fn, st, Ifc{nil_: bddFalse, term: "backend"}, Ifc{nil_: bddFalse, typ: vt, val: v})) {
		if o.panic || errOf(o) != 0 {
			continue
		}

		ts, ok := f.roles(o.st, o.vals[0])
		if ok {
			out = append(out, ts)
		}
	}

	f.failing = failing

	return out
}

// roles tells which buffer is the current one.
func (f *frames) roles(st *State, t Val) (termState, bool) {
	ts := termState{st: st, t: t}
	ghost := st.ghost

	one := func(name string) Val {
		outs := f.method(name)(st, t)
		if len(outs) != 1 || outs[0].panic {
			return nil
		}

		st = outs[0].st

		return outs[0].vals[0]
	}

	c, p, fr := one("CurrentBuffer"), one("PreviousBuffer"), one("GetFrame")
	if c == nil || p == nil || fr == nil {
		return ts, false
	}

	ts.cur, ts.prev = f.buf(c), f.buf(p)

	// the area of the frame
	am := f.p.methodOf(types.NewPointer(f.p.named("", "Frame")), "Area")
	id := st.newVar(f.p.named("", "Frame"), fr, "frame")
	outs := f.exec(am, st, Ptr{obj: id, nil_: bddFalse})

	if len(outs) != 1 || outs[0].panic {
		return ts, false
	}

	ts.area = outs[0].vals[0]
	ts.st = outs[0].st
	ts.st.ghost = ghost

	return ts, true
}

func checkT01(c *Check) {
	p := c.prog("linux")
	dfn := p.methodOf(types.NewPointer(p.named("", "Terminal")), "Draw")
	pos := p.pos(dfn.Pos())

	for _, cursor := range []bool{false, true} {
		for _, before := range []int{0, 1, 2} {
			name := fmt.Sprintf("after %d frames", before)
			if cursor {
				name += ", with a cursor"
			}

			f := newFrames(c, p)
			why := ""
			bad := func(s string, st *State) {
				if why == "" {
					why = s + ": " + st.ghost
				}
			}

			ok, failed := 0, 0

			tss := f.start("ViewportFullscreen")
			for i := 0; i < before; i++ {
				var next []termState

				for _, ts := range tss {
					for _, o := range f.draw(ts) {
						if !o.panic && errOf(o) == 0 {
							if n, good := f.roles(o.st, ts.t); good {
								next = append(next, n)
							}
						}
					}
				}

				tss = next
			}

			f.failing = true
			f.cursor = cursor

			for _, ts := range tss {
				for _, o := range f.draw(ts) {
					if o.panic {
						bad("it may panic", o.st)
						continue
					}

					evs := f.events(o.st)
					after, good := f.roles(o.st.fork(), ts.t)

					if !good {
						bad("the buffers after it are unknown", o.st)
						continue
					}

					bfail := indexOf(evs, "failed") >= 0
					e := errOf(o)

					if e < 0 || bfail != (e == 1) {
						bad("it returns an error exactly if an operation fails: not so", o.st)
						continue
					}

					if w := f.protocol(ts, after, evs, bfail, cursor); w != "" {
						bad(w, o.st)
						continue
					}

					if bfail {
						failed++
						err := o.vals[1].(Ifc)
						last := evs[len(evs)-2]
						op := strings.TrimPrefix(strings.SplitN(last, "(", 2)[0], "backend.")

						if !strings.Contains(err.errs, ","+op+",") {
							bad("the error does not wrap that of "+op, o.st)
						}
					} else {
						ok++
					}

					// the count of frames
					f.failing = false
					count := func(v Val, want int64) {
						t, isT := v.(Tup)
						ct := p.named("", "CompletedFrame").Underlying().(*types.Struct)

						if !isT {
							bad("no frame is returned", o.st)
							return
						}

						for i := 0; i < ct.NumFields(); i++ {
							if b, isB := ct.Field(i).Type().(*types.Basic); isB && b.Kind() == types.Int {
								if n, isN := constInt(t.fs[i]); !isN || n != want {
									bad(fmt.Sprintf("the frame that is completed after %d others has the count %s", want, showVal(t.fs[i])), o.st)
								}
							}

							if pt, isP := ct.Field(i).Type().(*types.Pointer); isP && types.Identical(pt.Elem(), p.named("", "Buffer")) && want == int64(before) && !bfail {
								if f.buf(t.fs[i]) != ts.cur {
									bad("the completed frame does not have the buffer that was drawn", o.st)
								}
							}
						}
					}

					next := int64(before)
					if !bfail {
						count(o.vals[0], int64(before))

						next++
					}

					for _, o2 := range f.draw(after) {
						if !o2.panic && errOf(o2) == 0 {
							count(o2.vals[0], next)
						}
					}

					f.failing = true
				}
			}

			if why == "" && (ok == 0 || failed < 3) {
				why = fmt.Sprintf("only %d ways to succeed and %d to fail were found", ok, failed)
			}

			c.want(why == "", "drawing a frame", name, pos, why)
			f.notesFail("undecided")
		}
	}

	c.atLeast("drawing a frame", 6)
	c.assume("buffers are only told apart here (T02, B01 and N02 are about their contents)")
}

func (f *frames) draw(ts termState) []Outcome {
	st := ts.st.fork()
	st.ghost = ""

	return f.method("Draw")(st, ts.t, Ifc{nil_: bddFalse, term: "widget"})
}

// protocol decides the order of the events of one Draw.
func (f *frames) protocol(ts, after termState, evs []string, failed, cursor bool) string {
	var main []string

	swapAt, diffAt := -1, -1

	for i, e := range evs {
		switch {
		case e == "reset("+ts.prev+")":
			if diffAt < 0 {
				return "the previous buffer is emptied before the difference is taken"
			}

			swapAt = i
		case strings.HasPrefix(e, "reset("), strings.HasPrefix(e, "resize("):
			return "the buffer that was drawn is changed"
		default:
			if strings.HasPrefix(e, "diff(") {
				diffAt = i
			}

			main = append(main, e)
		}
	}

	want := []string{"render(" + ts.cur + "," + f.rectArea(ts.area) + ")", "diff(" + ts.prev + "," + ts.cur + ")="}
	if len(main) < 2 || main[0] != want[0] {
		return "the widget is not rendered once, first, over the whole area into the current buffer"
	}

	if !strings.HasPrefix(main[1], want[1]) {
		return "the difference is not taken from the previous buffer to the current one"
	}

	updates := strings.TrimPrefix(main[1], want[1])
	steps := []string{"backend.Draw(" + updates + ")"}

	if cursor {
		steps = append(steps, "backend.ShowCursor", "backend.SetCursorPosition("+f.rectArea(posVal(f.p, Num{linS(symOf("cursor.x"))}, Num{linS(symOf("cursor.y"))}))+")")
	} else {
		steps = append(steps, "backend.HideCursor")
	}

	steps = append(steps, "backend.Flush")
	got := main[2:]

	swapped := after.cur == ts.prev && after.prev == ts.cur
	kept := after.cur == ts.cur && after.prev == ts.prev

	if cursor && len(got) > 2 && strings.HasPrefix(got[1], "backend.SetCursorPosition") {
		steps[1], steps[2] = steps[2], steps[1]
	}

	if failed {
		if len(got) < 2 || got[len(got)-1] != "failed" {
			return "after an operation failed others are attempted"
		}

		got = got[:len(got)-1]
		if len(got) > len(steps) || strings.Join(got, ";") != strings.Join(steps[:len(got)], ";") {
			return "the operations are not " + strings.Join(steps, ", ")
		}

		if len(got) < len(steps) && (!kept || swapAt >= 0) {
			return "the buffers are swapped although the frame was not drawn"
		}

		return ""
	}

	if strings.Join(got, ";") != strings.Join(steps, ";") {
		return "the operations are not " + strings.Join(steps, ", ")
	}

	if !swapped || swapAt < 0 {
		return "the buffers are not swapped, the new current one being emptied"
	}

	// not before the cursor is set
	for i, e := range evs {
		if i > swapAt && (strings.HasPrefix(e, "backend.Draw") || strings.Contains(e, "Cursor")) {
			return "the buffers are swapped before the frame is drawn and the cursor set"
		}
	}

	return ""
}

func checkT02(c *Check) {
	p := c.prog("linux")
	tt := types.NewPointer(p.named("", "Terminal"))
	at := func(n string) string { return p.pos(p.methodOf(tt, n).Pos()) }

	for _, vp := range []string{"ViewportFullscreen", "ViewportFixed"} {
		f := newFrames(c, p)
		tss := f.start(vp)
		why := ""

		if len(tss) == 0 {
			why = "NewTerminal does not succeed"
		}

		for _, ts := range tss {
			if ts.cur == ts.prev {
				why = "both roles are played by the same buffer"
			}

			n := 0

			for _, e := range f.events(ts.st) {
				if e == "new("+f.rectArea(ts.area)+")" {
					n++
				} else if strings.HasPrefix(e, "new(") {
					why = "a buffer has another area than the viewport"
				}
			}

			if n < 2 {
				why = "not two buffers with the area of the viewport are made"
			}
		}

		c.want(why == "", "new terminal", vp, p.pos(p.fn("", "NewTerminal").Pos()), why)

		// swapping
		why = ""
		cur := tss

		for round := 0; round < 2; round++ {
			var next []termState

			for _, ts := range cur {
				st := ts.st.fork()
				st.ghost = ""

				for _, o := range f.method("SwapBuffers")(st, ts.t) {
					n, ok := f.roles(o.st, ts.t)
					if o.panic || !ok {
						why = "it may panic"
						continue
					}

					if n.cur != ts.prev || n.prev != ts.cur {
						why = "the buffers do not change their roles"
					}

					if o.st.ghost != "reset("+ts.prev+")" {
						why = "not exactly the buffer that becomes the current one is emptied: " + o.st.ghost
					}

					next = append(next, n)
				}
			}

			c.want(why == "" && len(next) > 0, "swapping buffers", fmt.Sprintf("%s %d", vp, round), at("SwapBuffers"), why)
			tss = append(tss, next...)
			cur = next
		}

		// resizing, in both roles
		f.failing = true
		ok := 0
		why = ""

		area := f.rect(Num{linC(2)}, Num{linC(1)}, Num{linC(9)}, Num{linC(3)})
		if vp == "ViewportFullscreen" {
			area = f.rect(Num{linC(0)}, Num{linC(0)}, Num{linS(symOf("new.w"))}, Num{linS(symOf("new.h"))})
		}

		for _, ts := range tss {
			st := ts.st.fork()
			st.ghost = ""

			for _, o := range f.method("Resize")(st, ts.t, area) {
				evs := f.events(o.st)
				failed := indexOf(evs, "failed") >= 0
				e := errOf(o)
				n, good := f.roles(o.st.fork(), ts.t)

				switch {
				case o.panic || !good:
					why = "it may panic"
				case e < 0 || failed != (e == 1):
					why = "it returns an error exactly if an operation fails: not so: " + o.st.ghost
				case failed:
				default:
					ok++

					set := map[string]bool{}
					for _, e := range evs {
						set[e] = true
					}

					switch {
					case !o.st.same(n.area, area):
						why = "the viewport does not get the new area"
					case n.cur != ts.cur || n.prev != ts.prev:
						why = "the buffers change their roles"
					case !set["resize("+ts.cur+","+f.rectArea(area)+")"] || !set["resize("+ts.prev+","+f.rectArea(area)+")"]:
						why = "not both buffers get the new area: " + o.st.ghost
					case !set["reset("+ts.prev+")"]:
						why = "the previous buffer is not emptied, so that what is on the screen is not drawn again: " + o.st.ghost
					}

					for e := range set {
						if strings.HasPrefix(e, "resize(") && !strings.HasSuffix(e, ","+f.rectArea(area)+")") {
							why = "a buffer gets another area: " + e
						}
					}

					if why == "" && !set["backend.ClearAll"] {
						if vp == "ViewportFullscreen" {
							why = "the screen is not cleared: " + o.st.ghost
						} else {
							why = f.rowsCleared(evs, 1, 4)
						}
					}
				}
			}
		}

		if why == "" && ok == 0 {
			why = "it never succeeds"
		}

		c.want(why == "", "resizing", vp, at("Resize"), why)
		f.notesFail("undecided")
	}

	// emptying
	a := newAI(c, p)
	bt, ct := p.named("", "Buffer"), p.named("", "Cell")
	fn := p.methodOf(types.NewPointer(bt), "Reset")
	st := a.newState()
	b := Tup{append([]Val(nil), a.fresh(st, bt, "buffer").(Tup).fs...)}
	bs := bt.Underlying().(*types.Struct)
	ci := -1

	for i := 0; i < bs.NumFields(); i++ {
		if sl, ok := bs.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), ct) {
			ci = i
		}
	}

	if ci < 0 {
		anchorf("Buffer has no slice of cells")
	}

	var cells []Val
	for i := 0; i < 3; i++ {
		cells = append(cells, a.fresh(st, ct, fmt.Sprintf("cell%d", i)))
	}

	b.fs[ci] = st.newSlice(ct, cells)

	var empty Val

	for _, o := range a.exec(p.fn("", "NewEmptyCell"), st) {
		empty, st = o.vals[0], o.st
	}

	r, id := a.recv(fn, st, b)
	why := ""
	outs := a.exec(fn, st, r)

	if len(outs) == 0 {
		why = "it does not return"
	}

	for _, o := range outs {
		if o.panic {
			why = "it may panic"
			continue
		}

		es, ok := o.st.elemsOf(o.st.obj(id).val.(Tup).fs[ci])
		if !ok || len(es) != 3 {
			why = "the number of cells changes"
			continue
		}

		for i, e := range es {
			if !o.st.same(e, empty) {
				why = fmt.Sprintf("cell %d is not empty after it: %s", i, showVal(e))
			}
		}
	}

	c.want(why == "", "emptying a buffer", "Buffer.Reset", p.pos(fn.Pos()), why)
	a.notesFail("undecided")

	c.atLeast("new terminal", 2)
	c.atLeast("swapping buffers", 4)
	c.atLeast("resizing", 2)
	c.assume("Buffer.Reset treats cells uniformly: three cells show what happens to any number")
}

// rowsCleared decides that each row is cleared from a cursor position in it.
func (f *frames) rowsCleared(evs []string, from, to int64) string {
	done := map[string]bool{}

	for i, e := range evs {
		if !strings.HasPrefix(e, "backend.SetCursorPosition(") || i+1 >= len(evs) || evs[i+1] != "backend.ClearAfterCursor" {
			continue
		}

		done[e] = true
	}

	for y := from; y < to; y++ {
		hit := false

		for x := int64(0); x <= 2; x++ {
			hit = hit || done["backend.SetCursorPosition("+f.rectArea(posVal(f.p, Num{linC(x)}, Num{linC(y)}))+")"]
		}

		if !hit {
			return fmt.Sprintf("row %d is not cleared: %s", y, strings.Join(evs, "; "))
		}
	}

	return ""
}

func checkT06(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		bp := types.NewPointer(p.named("", "DefaultBackend"))
		enable, disable := p.methodOf(bp, "EnableRawMode"), p.methodOf(bp, "DisableRawMode")

		a := newAI(c, p)
		a.maxNodes = 2000
		ev := func(st *State, e string) {
			if st.ghost != "" {
				st.ghost += ";"
			}

			st.ghost += e
		}

		a.hooks.call = func(cc *CallCtx) (bool, []Outcome) {
			st := cc.st

			name, ok := strings.CutPrefix(cc.name, "github.com/charmbracelet/x/term.")
			win, okw := strings.CutPrefix(cc.name, "golang.org/x/sys/windows.")

			switch {
			case ok && (name == "MakeRaw" || name == "GetState"):
				f := st.fork()
				ev(f, name+" fails")

				state := a.fresh(st, cc.sig.Results().At(0).Type(), name+"("+valKey(cc.args[0])+")").(Ptr)
				state.nil_ = bddFalse
				ev(st, name+"("+valKey(cc.args[0])+")="+valKey(state))

				return true, []Outcome{
					{st: f, vals: []Val{Ptr{nil_: bddTrue}, Ifc{nil_: bddFalse, term: "error", errs: ",error,"}}},
					{st: st, vals: []Val{state, Ifc{nil_: bddTrue}}},
				}
			case ok && (name == "Restore" || name == "SetState"):
				f := st.fork()
				ev(f, "Restore("+valKey(cc.args[0])+","+valKey(cc.args[1])+")")
				ev(st, "Restore("+valKey(cc.args[0])+","+valKey(cc.args[1])+")")
				ev(f, "restore fails")

				return true, []Outcome{{st: f, vals: []Val{Ifc{nil_: bddFalse, term: "error", errs: ",error,"}}}, {st: st, vals: []Val{Ifc{nil_: bddTrue}}}}
			case okw && win == "SetConsoleMode":
				f := st.fork()
				ev(st, "SetConsoleMode")
				ev(f, "SetConsoleMode")

				return true, []Outcome{{st: f, vals: []Val{Ifc{nil_: bddFalse, term: "error"}}}, {st: st, vals: []Val{Ifc{nil_: bddTrue}}}}
			case strings.HasSuffix(cc.name, ".Fd") && len(cc.args) == 1:
				return cc.ret(a.fresh(st, cc.sig.Results().At(0).Type(), "fd("+colourKey(cc.args[0])+")"))
			}

			return false, nil
		}

		st := a.newState()
		in := Ifc{nil_: bddFalse, term: "input"}
		out := Ifc{nil_: bddFalse, term: "output"}

		// saved states, by file, at the end of EnableRawMode
		saved := func(trace string) map[string]string {
			m := map[string]string{}

			for _, e := range splitTop(trace, ';') {
				for _, pre := range []string{"MakeRaw(", "GetState("} {
					if r, ok := strings.CutPrefix(e, pre); ok {
						i := strings.Index(r, ")=")
						m[r[:i]] = r[i+2:]
					}
				}
			}

			return m
		}

		raw, restored := 0, 0
		why := ""

		check := func(o Outcome, want map[string]string) {
			evs := splitTop(o.st.ghost, ';')

			var wants, gots []string
			for fd, s := range want {
				wants = append(wants, "Restore("+fd+","+s+")")
			}

			fails := false

			for _, e := range evs {
				if strings.HasPrefix(e, "Restore(") {
					gots = append(gots, e)
				}

				fails = fails || e == "restore fails"
			}

			sort.Strings(wants)
			sort.Strings(gots)

			if strings.Join(wants, ";") != strings.Join(gots, ";") {
				why = fmt.Sprintf("restores %v, not %v", gots, wants)
			}

			if e := errOf(o); e < 0 || fails != (e == 1) {
				why = "it returns an error exactly if restoring fails: not so: " + o.st.ghost
			}

			restored += len(gots)
		}

		nb := 0

		for _, b := range live(a.exec(p.fn("", "NewDefaultBackend"), st, in, out)) {
			if b.panic {
				continue
			}

			nb++

			id := b.st.newVar(p.named("", "DefaultBackend"), b.vals[0], "backend")
			recv := Ptr{obj: id, nil_: bddFalse}

			// without having changed anything
			f := b.st.fork()
			f.ghost = ""

			for _, o := range a.exec(disable, f, recv) {
				if o.panic {
					why = "it may panic"
					continue
				}

				check(o, nil)
			}

			g := b.st.fork()
			g.ghost = ""

			for _, o := range a.exec(enable, g, recv) {
				if o.panic {
					why = "enabling raw mode may panic"
					continue
				}

				want := saved(o.st.ghost)
				if strings.Contains(o.st.ghost, "MakeRaw(") {
					raw++
				}

				if strings.Contains(o.st.ghost, " fails") && errOf(o) != 1 {
					why = "a failure to enable raw mode is not reported: " + o.st.ghost
				}

				st2 := o.st
				st2.ghost = ""

				for _, o2 := range a.exec(disable, st2, recv) {
					if o2.panic {
						why = "it may panic"
						continue
					}

					check(o2, want)
				}
			}
		}

		if why == "" && (nb == 0 || raw == 0 || restored == 0) {
			why = "raw mode is never entered or left"
		}

		c.want(why == "", "raw mode is undone", goos, p.pos(disable.Pos()), why)
		a.notesFail("undecided")
	}

	c.atLeast("raw mode is undone", 2)
	c.assume("raw mode is entered once before it is left; the states are those of the calls of x/term")
}
