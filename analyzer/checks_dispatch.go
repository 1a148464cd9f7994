package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R06", checkR06)
	register("R08", checkR08)
}

// dispatch interprets App.Run for a script of messages, and records what is
// done with each of them. What is left open: the model, the commands and what
// they give.
type dispatch struct {
	*rt
	script  []Val
	names   map[string]string // keys of messages
	results map[string]Val    // messages that commands give
	first   Val               // the command that the dispatcher receives
	done    bool              // the context is done instead
	failed  Val               // the error a background goroutine reports instead
	noCmd   bool              // Update returns no command
	late    bool              // the context is done once a model was updated
	after   bool              // done and failed hold at the end of the script
	initCmd Val
	inner   []string // the commands of the batch in a sequence

	kills []string // traces that end where the script does
	base  int
	size  [2]Lin
}

func (d *dispatch) log(st *State, e string) {
	if st.ghost != "" {
		st.ghost += ";"
	}

	st.ghost += e
}

func countEv(trace, prefix string) int {
	n := 0

	for _, e := range splitTop(trace, ';') {
		if strings.HasPrefix(e, prefix) {
			n++
		}
	}

	return n
}

// splitTop splits at separators outside of brackets.
func splitTop(s string, sep byte) []string {
	var out []string

	depth, from := 0, 0

	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '[':
			depth++
		case s[i] == ']':
			depth--
		case s[i] == sep && depth == 0:
			out = append(out, s[from:i])
			from = i + 1
		}
	}

	if from < len(s) {
		out = append(out, s[from:])
	}

	return out
}

func (d *dispatch) cmdName(st *State, v Val) string {
	f, ok := v.(Fun)
	if !ok {
		return "?"
	}

	if st.decide(f.nil_) == 1 {
		return "nil"
	}

	if n, ok := strings.CutPrefix(f.term, "cmd:"); ok {
		return n
	}

	if f.fn != nil {
		return "func"
	}

	return f.term
}

func (d *dispatch) msgName(st *State, v Val) string {
	if n, ok := d.names[valKey(v)]; ok {
		return n
	}

	if i, ok := v.(Ifc); ok {
		for j, s := range d.script {
			if st.deepSame(i, s) {
				return fmt.Sprintf("m%d", j)
			}
		}

		if i.typ != nil {
			return "a " + typeName(i.typ)
		}

		return i.term
	}

	return valKey(v)
}

func (d *dispatch) modelName(v Val) string {
	if i, ok := v.(Ifc); ok && i.typ == nil {
		return i.term
	}

	return valKey(v)
}

func newDispatch(c *Check, p *Prog) *dispatch {
	r := newRT(c, p)
	r.panics, r.failures = false, false
	d := &dispatch{rt: r, names: map[string]string{}, results: map[string]Val{}}

	d.size = [2]Lin{linS(symOf("msg.width")), linS(symOf("msg.height"))}

	base := r.hooks.call
	r.hooks.call = func(cc *CallCtx) (bool, []Outcome) {
		switch cc.name {
		case pkgPath("") + ".Terminal.Resize":
			rect := p.named("", "Rect")
			v := cc.args[1].(Tup)
			w, h := v.fs[fieldIdx(rect, "Width")], v.fs[fieldIdx(rect, "Height")]

			if cc.st.same(w, Num{d.size[0]}) && cc.st.same(h, Num{d.size[1]}) {
				d.log(cc.st, "resize")
			} else {
				d.log(cc.st, "resize to another size")
			}

			return cc.ret(Ifc{nil_: bddTrue})
		case "iface:context.Context.Err":
			return cc.ret(Ifc{nil_: bddConst(!d.done && !d.late), term: "context error"})
		}

		return base(cc)
	}

	r.event = func(st *State, ev string, cc *CallCtx) {
		if ev == "groupwait" || ev == "wg.Wait" && r.gor > 0 {
			d.log(st, "wait")
		}
	}

	r.user = func(cc *CallCtx, what string) (bool, []Outcome) {
		st := cc.st

		switch what {
		case "Init":
			d.log(st, "init("+d.modelName(cc.args[0])+")")

			return cc.ret(d.initCmd)
		case "Update":
			n := countEv(st.ghost, "update(") + 1
			d.log(st, "update("+d.modelName(cc.args[0])+","+d.msgName(st, cc.args[1])+")")

			next := d.cmd(fmt.Sprintf("u%d", n))
			if d.noCmd {
				next = Fun{nil_: bddTrue}
			}

			return cc.ret(Ifc{nil_: bddFalse, term: fmt.Sprintf("model%d", n)}, next)
		case "Render":
			d.log(st, "render("+d.modelName(cc.args[0])+")")
			return cc.ret()
		case "cmd":
			n := d.cmdName(st, cc.fun)

			switch {
			case d.gor == 0:
				d.log(st, "call on the event loop("+n+")")
			case countEv(st.ghost, "cmdrecv(") > 0 || countEv(st.ghost, "msgrecv(") > 0:
				d.log(st, "call on the dispatcher("+n+")")
			default:
				d.log(st, "call("+n+")")
			}

			if v := d.results[n]; v != nil {
				return cc.ret(v)
			}

			return cc.ret(d.res("res:" + n))
		}

		return false, nil
	}

	r.goFn = func(cc *CallCtx, body func() []Outcome) {
		savedK, savedB := d.kills, d.base
		d.kills, d.base = nil, d.quiet

		seen := map[string]bool{}
		for _, o := range body() {
			t := o.st.ghost
			if o.panic {
				t += ";panic"
			}

			seen[t] = true
		}

		for _, k := range d.kills {
			seen[k] = true
		}

		d.kills, d.base = savedK, savedB

		var ts []string
		for t := range seen {
			ts = append(ts, t)
		}

		sort.Strings(ts)
		d.log(cc.st, "go["+strings.Join(ts, "/")+"]")
	}

	kill := func(n *Node) {
		if d.quiet == d.base {
			d.kills = append(d.kills, n.st.ghost)
		}

		n.st.dead = true
	}

	// one case of a select, or an operation of its own
	op := func(n *Node, dir types.ChanDir, t types.Type, ch, send Val, alone bool) (Val, bool) {
		kind := d.chanKind(t)
		st := n.st

		if dir == types.SendOnly {
			switch kind {
			case "msg":
				d.log(st, "send("+d.msgName(st, send)+")")
			case "cmd":
				if d.late && countEv(st.ghost, "update(") > 0 {
					return nil, false
				}

				d.log(st, "sendcmd("+d.cmdName(st, send)+")")
			}

			return nil, true
		}

		i := countEv(st.ghost, "msgrecv(")
		ends := (d.done || d.failed != nil) && (!d.after || i >= len(d.script))

		switch {
		case kind == "msg":
			if i >= len(d.script) || ends {
				if !ends {
					kill(n)
				}

				return nil, false
			}

			d.log(st, fmt.Sprintf("msgrecv(%d)", i))

			return d.script[i], true
		case kind == "cmd":
			if countEv(st.ghost, "cmdrecv(") > 0 {
				kill(n)
				return nil, false
			}

			d.log(st, "cmdrecv("+d.cmdName(st, d.first)+")")

			return d.first, true
		case kind == "err":
			return d.failed, d.failed != nil && ends
		case strings.HasPrefix(chanKey(ch), "done("):
			return nil, d.done && ends || d.late && countEv(st.ghost, "update(") > 0
		case alone:
			return nil, true
		}

		return nil, false
	}

	r.selFn = func(n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) {
		return op(n, s.States[k].Dir, s.States[k].Chan.Type(), chans[k], send, false)
	}
	r.reFn = func(n *Node, ch Val, in ssa.Instruction) Val {
		v, ok := op(n, types.RecvOnly, in.(*ssa.UnOp).X.Type(), ch, nil, true)
		if !ok {
			n.st.dead = true
		}

		return v
	}
	r.seFn = func(n *Node, ch, v Val, in ssa.Instruction) {
		op(n, types.SendOnly, in.(*ssa.Send).Chan.Type(), ch, v, true)
	}

	d.initCmd = Fun{nil_: bddTrue}
	d.first = d.cmd("d")

	return d
}

// res is a message of a type of the user's, which a command gives.
func (d *dispatch) res(n string) Val {
	v := d.msg(types.Typ[types.String], strC(n))
	d.names[valKey(v)] = n

	return v
}

func (d *dispatch) cmd(n string) Val { return Fun{nil_: bddFalse, term: "cmd:" + n} }

// msg makes a message of a type of the repository.
func (d *dispatch) msg(t types.Type, v Val) Val { return Ifc{nil_: bddFalse, typ: t, val: v} }

type dispatchRun struct {
	traces []string // up to the end of the script
	outs   []Outcome
}

// run interprets App.Run for the script, which mk makes in the state.
func (d *dispatch) runScript(mk func(st *State) []Val) dispatchRun {
	var res dispatchRun

	for _, v := range d.apps() {
		if v.name != "default" {
			continue
		}

		d.script = mk(v.st)
		d.kills, d.base = nil, 0
		res.outs = append(res.outs, d.runApp(v)...)
		res.traces = append(res.traces, d.kills...)
	}

	return res
}

// segment is what is done for message i.
func segment(trace string, i int) []string {
	var out []string

	in := false

	for _, e := range splitTop(trace, ';') {
		if strings.HasPrefix(e, "msgrecv(") {
			in = e == fmt.Sprintf("msgrecv(%d)", i)
			continue
		}

		if in {
			out = append(out, e)
		}
	}

	return out
}

// flat lists the events of goroutines with those of the one that starts them.
func flat(events []string) []string {
	var out []string

	for _, e := range events {
		if body, ok := strings.CutPrefix(e, "go["); ok {
			for _, alt := range splitTop(strings.TrimSuffix(body, "]"), '/') {
				out = append(out, flat(splitTop(alt, ';'))...)
			}

			continue
		}

		out = append(out, e)
	}

	return out
}

func without(events []string, drop ...string) []string {
	var out []string

outer:
	for _, e := range events {
		for _, x := range drop {
			if e == x {
				continue outer
			}
		}

		out = append(out, e)
	}

	return out
}

func sameSet(a []string, b ...string) bool {
	a = append([]string(nil), a...)
	b = append([]string(nil), b...)
	sort.Strings(a)
	sort.Strings(b)

	return strings.Join(a, ";") == strings.Join(b, ";")
}

// plain drops the goroutines.
func plain(events []string) []string {
	var out []string

	for _, e := range events {
		if !strings.HasPrefix(e, "go[") {
			out = append(out, e)
		}
	}

	return out
}

// goBodies are the traces of the goroutines started.
func goBodies(events []string) [][]string {
	var out [][]string

	for _, e := range events {
		if body, ok := strings.CutPrefix(e, "go["); ok {
			out = append(out, splitTop(strings.TrimSuffix(body, "]"), '/'))
		}
	}

	return out
}

func (d *dispatch) named(n string) types.Type {
	return d.p.named("", n)
}

func (d *dispatch) batch(st *State, cmds ...Val) Val {
	return d.msg(d.named("BatchMsg"), st.newSlice(d.named("Cmd"), cmds))
}

// sequence is the message that Sequence of the commands gives.
func (d *dispatch) sequence(st *State, cmds ...Val) (*State, Val) {
	fn := d.p.fn("", "Sequence")

	for _, o := range d.exec(fn, st, st.newSlice(d.named("Cmd"), cmds)) {
		f, ok := o.vals[0].(Fun)
		if o.panic || !ok || f.fn == nil {
			continue
		}

		for _, o2 := range d.run(f.fn, nil, f.binds, o.st, nil, nil, false) {
			if !o2.panic {
				return o2.st, o2.vals[0]
			}
		}
	}

	panic("Sequence gives no message")
}

func (d *dispatch) key(st *State, term string) Val {
	t := d.named("KeyMsg")
	return d.msg(t, d.fresh(st, t, term))
}

func (d *dispatch) window(st *State) Val {
	t := d.named("WindowSizeMsg")
	v := Tup{append([]Val(nil), d.fresh(st, t, "window").(Tup).fs...)}
	s := t.Underlying().(*types.Struct)

	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Width":
			v.fs[i] = Num{d.size[0]}
		case "Height":
			v.fs[i] = Num{d.size[1]}
		}
	}

	return d.msg(t, v)
}

func (d *dispatch) quit(st *State) Val {
	t := d.named("QuitMsg")
	return d.msg(t, d.zeroVal(t))
}

// handled decides what is done for an ordinary message: the current model is
// updated with it once; the command goes to the dispatcher and the new model
// is drawn.
func handled(ev []string, from, to int, msg string, extra ...string) string {
	if len(ev) == 0 {
		return "nothing is done"
	}

	want := append([]string{fmt.Sprintf("update(model%d,%s)", from, msg), fmt.Sprintf("sendcmd(u%d)", to), fmt.Sprintf("render(model%d)", to)}, extra...)
	if !sameSet(ev, want...) {
		return "done: " + strings.Join(ev, "; ")
	}

	if i := indexOf(ev, want[0]); i > indexOf(ev, want[1]) || i > indexOf(ev, want[2]) {
		return "out of order: " + strings.Join(ev, "; ")
	}

	return ""
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}

	return -1
}

func checkR06(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		fn := p.fn("", "App.Run")
		pos := p.pos(fn.Pos())

		each := func(name string, d *dispatch, mk func(st *State) []Val, decide func(trace string) string) {
			res := d.runScript(mk)
			if len(res.traces) == 0 {
				c.fail("message is dispatched", name+" "+goos, pos, "the event loop does not get to the next message")
				return
			}

			for _, t := range res.traces {
				why := decide(t)
				c.want(why == "", "message is dispatched", name+" "+goos, pos, why, strings.Split(t, ";")...)
			}

			d.notesFail("undecided")
		}

		next := func(t string, i, from int) string {
			if why := handled(without(plain(segment(t, i)), "wait"), from, from+1, fmt.Sprintf("m%d", i)); why != "" {
				return "for the message after it: " + why
			}

			return ""
		}

		d := newDispatch(c, p)
		each("any message", d, func(st *State) []Val { return []Val{d.key(st, "k0"), d.key(st, "k1")} }, func(t string) string {
			if why := handled(plain(segment(t, 0)), 0, 1, "m0"); why != "" {
				return why
			}

			return next(t, 1, 1)
		})

		d = newDispatch(c, p)
		d.noCmd = true
		each("no command returned", d, func(st *State) []Val { return []Val{d.key(st, "k0"), d.key(st, "k1")} }, func(t string) string {
			for i := 0; i < 2; i++ {
				ev := without(plain(segment(t, i)), "sendcmd(nil)")
				if why := handled(append(ev, fmt.Sprintf("sendcmd(u%d)", i+1)), i, i+1, fmt.Sprintf("m%d", i)); why != "" {
					return why
				}
			}

			return ""
		})

		// a type the runtime knows nothing of
		d = newDispatch(c, p)
		each("message of another type", d, func(st *State) []Val {
			return []Val{d.msg(types.Typ[types.String], strC("text")), d.key(st, "k1")}
		}, func(t string) string {
			if why := handled(plain(segment(t, 0)), 0, 1, "m0"); why != "" {
				return why
			}

			return next(t, 1, 1)
		})

		d = newDispatch(c, p)
		each("nil message", d, func(st *State) []Val { return []Val{Ifc{nil_: bddTrue}, d.key(st, "k1")} }, func(t string) string {
			if ev := segment(t, 0); len(ev) > 0 {
				return "done: " + strings.Join(ev, "; ")
			}

			return next(t, 1, 0)
		})

		d = newDispatch(c, p)
		each("window size", d, func(st *State) []Val { return []Val{d.window(st), d.key(st, "k1")} }, func(t string) string {
			ev := plain(segment(t, 0))
			if why := handled(ev, 0, 1, "m0", "resize"); why != "" {
				return why
			}

			if indexOf(ev, "resize") > indexOf(ev, "render(model1)") {
				return "the model is drawn before the terminal is resized"
			}

			return next(t, 1, 1)
		})

		for n, cmds := range map[string][]string{"empty batch": nil, "batch": {"c0", "c1"}, "batch with nil": {"c0", "nil", "c1", "c2"}} {
			d = newDispatch(c, p)

			var want []string

			for _, k := range cmds {
				if k != "nil" {
					want = append(want, "sendcmd("+k+")")
				}
			}

			each(n, d, func(st *State) []Val {
				var cs []Val

				for _, k := range cmds {
					if k == "nil" {
						cs = append(cs, Fun{nil_: bddTrue})
					} else {
						cs = append(cs, d.cmd(k))
					}
				}

				return []Val{d.batch(st, cs...), d.key(st, "k1")}
			}, func(t string) string {
				ev := without(flat(segment(t, 0)), "sendcmd(nil)")
				if !sameSet(ev, want...) {
					return "done: " + strings.Join(ev, "; ")
				}

				return next(t, 1, 0)
			})
		}

		d = newDispatch(c, p)
		each("sequence", d, func(st *State) []Val {
			s2, m := d.sequence(st, d.cmd("c0"), d.cmd("c1"))
			*st = *s2

			return []Val{m, d.key(st, "k1")}
		}, func(t string) string {
			ev := segment(t, 0)
			if len(goBodies(ev)) == 0 {
				return "no goroutine is started for the sequence"
			}

			if why := handled(plain(ev), 0, 1, "m0"); why != "" {
				return why
			}

			return next(t, 1, 1)
		})

		// the end
		for _, k := range []struct {
			name string
			n    int
		}{{"quit first", 0}, {"quit after a message", 1}, {"quit after two messages", 2}} {
			d = newDispatch(c, p)
			res := d.runScript(func(st *State) []Val {
				var ms []Val
				for i := 0; i < k.n; i++ {
					ms = append(ms, d.key(st, fmt.Sprintf("k%d", i)))
				}

				return append(ms, d.quit(st))
			})

			why := ""
			if len(res.traces) > 0 {
				why = "the event loop goes on after a quit message"
			}

			if len(res.outs) == 0 {
				why = "App.Run does not end"
			}

			for _, o := range res.outs {
				if o.panic {
					why = "App.Run panics"
					continue
				}

				if e, ok := o.vals[1].(Ifc); !ok || o.st.decide(e.nil_) != 1 {
					why = "App.Run may return an error"
				}

				if m := d.modelName(o.vals[0]); m != fmt.Sprintf("model%d", k.n) {
					why = "App.Run returns " + m + ", not the last model"
				}

				for _, e := range segment(o.st.ghost, k.n) {
					if strings.HasPrefix(e, "update(") || strings.HasPrefix(e, "sendcmd(") {
						why = "the quit message is handled further: " + e
					}
				}
			}

			c.want(why == "", "quit ends the event loop", k.name+" "+goos, pos, why)
			d.notesFail("undecided")
		}

		for _, k := range []struct {
			name                string
			failed, after, late bool
		}{
			{name: "its context was cancelled"},
			{name: "a background goroutine failed", failed: true},
			{name: "its context was cancelled after a message", after: true},
			{name: "a background goroutine failed after a message", failed: true, after: true},
			{name: "its context was cancelled while a message was handled", late: true},
		} {
			d = newDispatch(c, p)
			d.late, d.after = k.late, k.after

			switch {
			case k.failed:
				d.failed = Ifc{nil_: bddFalse, term: "background error", errs: ",background,"}
			case !k.late:
				d.done = true
			}

			want := "model0"
			if k.after || k.late {
				want = "model1"
			}

			res := d.runScript(func(st *State) []Val { return []Val{d.key(st, "k0")} })
			why := ""

			if len(res.outs) == 0 {
				why = "App.Run does not end"
			}

			for _, o := range res.outs {
				if o.panic {
					why = "App.Run panics"
				} else if e, ok := o.vals[1].(Ifc); !ok || o.st.decide(e.nil_) != 0 {
					why = "App.Run may return no error although " + k.name
				} else if k.failed && !strings.Contains(e.errs, ",background,") {
					why = "the error that App.Run returns does not wrap the one of the goroutine"
				} else if m := d.modelName(o.vals[0]); m != want {
					why = "App.Run returns " + m + ", not the last model"
				}
			}

			c.want(why == "", "event loop ends", k.name+" "+goos, pos, why)
		}

		// the initial command
		d = newDispatch(c, p)
		d.initCmd = d.cmd("init")
		each("initial command", d, func(st *State) []Val { return []Val{d.key(st, "k0")} }, func(t string) string {
			n := 0
			inits := 0

			for _, e := range flat(splitTop(t, ';')) {
				if e == "sendcmd(init)" {
					n++
				}

				if strings.HasPrefix(e, "init(") {
					inits++
				}
			}

			if inits != 1 || !strings.HasPrefix(t, "init(model0)") {
				return "Init is not called exactly once, and first"
			}

			if n != 1 {
				return fmt.Sprintf("the command of Init is handed to the dispatcher %d times", n)
			}

			before := splitTop(strings.Split(t, ";msgrecv")[0], ';')
			if indexOf(before, "render(model0)") < 0 {
				return "the first model is not drawn before the first message"
			}

			return ""
		})
	}

	c.atLeast("message is dispatched", 18)
	c.atLeast("quit ends the event loop", 6)
	c.atLeast("event loop ends", 10)
	c.assume("the event loop carries the model only from one message to the next, so two messages show what happens for any history; select statements choose among ready cases (R03 decides that they can give up)")
}

func checkR08(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		fn := p.fn("", "App.Run")
		pos := p.pos(fn.Pos())

		// where commands run
		elsewhere := func(name string, traces []string) {
			for _, t := range traces {
				why := ""

				for _, e := range flat(splitTop(t, ';')) {
					if strings.HasPrefix(e, "call on ") {
						why = e
					}
				}

				c.want(why == "", "command runs in a goroutine of its own", name+" "+goos, pos, why, strings.Split(t, ";")...)
			}
		}

		// the dispatcher
		for _, first := range []string{"d", "nil"} {
			d := newDispatch(c, p)
			if first == "nil" {
				d.first = Fun{nil_: bddTrue}
			}

			res := d.runScript(func(st *State) []Val { return []Val{d.key(st, "k0")} })
			why := "no goroutine receives commands"

			for _, t := range res.traces {
				for _, alts := range goBodies(splitTop(t, ';')) {
					for _, alt := range alts {
						ev := splitTop(alt, ';')
						if len(ev) == 0 || !strings.HasPrefix(ev[0], "cmdrecv(") {
							continue
						}

						why = ""

						if first == "nil" {
							if len(flat(ev)) > 1 {
								why = "a nil command is run: " + alt
							}

							continue
						}

						bodies := goBodies(ev)
						if len(bodies) != 1 || len(ev) != 2 {
							why = "not exactly one goroutine is started for a command: " + alt
							continue
						}

						for _, b := range bodies[0] {
							if b != "call(d);send(res:d)" {
								why = "a command is not called once and its message sent once: " + b
							}
						}
					}
				}
			}

			c.want(why == "", "dispatcher runs each command", first+" "+goos, pos, why)
			elsewhere("dispatched "+first, res.traces)
			d.notesFail("undecided")
		}

		seq := func(name string, d *dispatch, cmds []string, decide func(ev []string) string) {
			res := d.runScript(func(st *State) []Val {
				var cs []Val

				for _, k := range cmds {
					if k == "nil" {
						cs = append(cs, Fun{nil_: bddTrue})
					} else {
						cs = append(cs, d.cmd(k))
					}

					if k == "b" {
						var in []Val
						for _, b := range d.inner {
							in = append(in, d.cmd(b))
						}

						d.results["b"] = d.batch(st, in...)
					}
				}

				s2, m := d.sequence(st, cs...)
				*st = *s2

				return []Val{m, d.key(st, "k1")}
			})

			if len(res.traces) == 0 {
				c.fail("sequence is run in order", name+" "+goos, pos, "the event loop does not get to the next message")
			}

			for _, t := range res.traces {
				bodies := goBodies(segment(t, 0))
				why := ""

				if len(bodies) != 1 {
					why = fmt.Sprintf("%d goroutines are started for a sequence", len(bodies))
				} else {
					for _, b := range bodies[0] {
						if w := decide(splitTop(b, ';')); w != "" {
							why = w + ": " + b
						}
					}
				}

				c.want(why == "", "sequence is run in order", name+" "+goos, pos, why, strings.Split(t, ";")...)
			}

			elsewhere(name, res.traces)
			d.notesFail("undecided")
		}

		exactly := func(want ...string) func(ev []string) string {
			return func(ev []string) string {
				if strings.Join(ev, ";") != strings.Join(want, ";") {
					return "the commands of a sequence do not run one at a time, each message being sent before the next command starts"
				}

				return ""
			}
		}

		seq("empty sequence", newDispatch(c, p), nil, exactly())
		seq("sequence of one", newDispatch(c, p), []string{"c0"}, exactly("call(c0)", "send(res:c0)"))
		seq("sequence", newDispatch(c, p), []string{"c0", "c1", "c2"}, exactly("call(c0)", "send(res:c0)", "call(c1)", "send(res:c1)", "call(c2)", "send(res:c2)"))
		seq("sequence with nil", newDispatch(c, p), []string{"c0", "nil", "c1"}, exactly("call(c0)", "send(res:c0)", "call(c1)", "send(res:c1)"))
		for n := 0; n <= 3; n++ {
			d := newDispatch(c, p)

			var inner []string
			for i := 0; i < n; i++ {
				inner = append(inner, fmt.Sprintf("b%d", i))
			}

			d.inner = inner

			seq(fmt.Sprintf("sequence with a batch of %d", n), d, []string{"c0", "b", "c1"}, func(ev []string) string {
				rest := ev

				take := func(es ...string) bool {
					for _, e := range es {
						if len(rest) == 0 || rest[0] != e {
							return false
						}

						rest = rest[1:]
					}

					return true
				}

				if !take("call(c0)", "send(res:c0)", "call(b)") {
					return "the commands of a sequence do not run one at a time"
				}

				var bodies, want []string

				for len(rest) > 0 && strings.HasPrefix(rest[0], "go[") {
					bodies = append(bodies, rest[0])
					rest = rest[1:]
				}

				for _, b := range inner {
					want = append(want, "go[call("+b+");send(res:"+b+")]")
				}

				if !sameSet(bodies, want...) {
					return "the commands of the batch in the sequence are not each called once and their message sent"
				}

				awaited := false

				for len(rest) > 0 && rest[0] == "wait" {
					awaited = true
					rest = rest[1:]
				}

				if n > 0 && !awaited {
					return "the batch in the sequence is not awaited before the sequence goes on"
				}

				if !take("call(c1)", "send(res:c1)") || len(rest) > 0 {
					return "the commands of a sequence do not run one at a time"
				}

				return ""
			})
		}

		// a batch and what it becomes
		bd := newDispatch(c, p)
		bfn := p.fn("", "Batch")

		for _, cmds := range [][]string{nil, {"nil"}, {"c0"}, {"nil", "c0"}, {"c0", "c1"}, {"c0", "nil", "c1", "nil", "c2"}} {
			st := bd.newState()

			var cs []Val

			var want []string

			for _, k := range cmds {
				if k == "nil" {
					cs = append(cs, Fun{nil_: bddTrue})
				} else {
					cs = append(cs, bd.cmd(k))
					want = append(want, k)
				}
			}

			for _, o := range bd.exec(bfn, st, st.newSlice(bd.named("Cmd"), cs)) {
				why := ""

				f, ok := o.vals[0].(Fun)

				switch {
				case o.panic || !ok:
					why = "Batch gives no command"
				case o.st.decide(f.nil_) == 1:
					if len(want) > 0 {
						why = "the commands are dropped"
					}
				case f.fn == nil:
					if len(want) != 1 || bd.cmdName(o.st, f) != want[0] {
						why = "gives " + bd.cmdName(o.st, f)
					}
				default:
					for _, o2 := range bd.run(f.fn, nil, f.binds, o.st, nil, nil, false) {
						m, ok := o2.vals[0].(Ifc)
						if !ok || m.typ == nil || !types.Identical(m.typ, bd.named("BatchMsg")) {
							why = "its message is not a batch"
							continue
						}

						es, ok := o2.st.elemsOf(m.val)

						var got []string

						for _, e := range es {
							if n := bd.cmdName(o2.st, e); n != "nil" {
								got = append(got, n)
							} else {
								got = append(got, "a nil command")
							}
						}

						if !ok || !sameSet(got, want...) {
							why = "its message has the commands " + strings.Join(got, ", ")
						}
					}
				}

				c.want(why == "", "batch keeps the commands that are not nil", fmt.Sprint(cmds)+" "+goos, p.pos(bfn.Pos()), why)
			}
		}

		bd.notesFail("undecided")
	}

	c.atLeast("sequence is run in order", 16)
	c.atLeast("batch keeps the commands that are not nil", 12)
	c.atLeast("dispatcher runs each command", 4)
	c.assume("sequences and batches are followed with up to three commands: their loops treat commands uniformly")
}
