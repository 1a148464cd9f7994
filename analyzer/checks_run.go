package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R01", checkR01)
}

// modes of the terminal: what turns one on, and off.
var termModes = []struct{ mode, on, off string }{
	{"raw mode", "EnableRawMode", "DisableRawMode"},
	{"hidden cursor", "HideCursor", "ShowCursor"},
	{"alternate screen", "EnableAlternateScreen", "LeaveAlternateScreen"},
	{"bracketed paste", "EnableBracketedPaste", "DisableBracketedPaste"},
}

func checkR01(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		r := newRT(c, p)
		fn := p.fn("", "App.Run")

		seenOn := map[string]bool{}

		r.event = func(st *State, ev string, cc *CallCtx) {
			op, ok := strings.CutPrefix(ev, "backend.")
			if !ok {
				return
			}

			for _, m := range termModes {
				switch op {
				case m.on:
					// whether it fails or not
					st.set("on:" + m.mode)
					seenOn[m.mode] = true
				case m.off:
					st.unset("on:" + m.mode)
				}
			}
		}

		n := 0

		for _, v := range r.apps() {
			bad := map[string]*State{}
			paths := 0

			for _, o := range r.runApp(v) {
				paths++
				n++

				for _, m := range o.st.tokensWith("on:") {
					bad[m] = o.st
				}
			}

			if paths == 0 {
				c.fail("mode is turned off again", goos+" "+v.name, p.pos(fn.Pos()), "no path of App.Run ends")
			}

			for _, m := range termModes {
				if seenOn[m.mode] || bad[m.mode] != nil {
					c.want(bad[m.mode] == nil, "mode is turned off again", m.mode+" ("+v.name+" input, "+goos+")", p.pos(fn.Pos()),
						"there is a path on which App.Run ends while it has turned on: "+m.mode)
				}
			}
		}

		for _, m := range termModes[:3] {
			c.want(seenOn[m.mode], "mode is used", m.mode+" "+goos, p.pos(fn.Pos()), "App.Run never turns it on: the anchor of the rule was lost")
		}

		c.note("paths "+goos, n)
		r.notesFail("undecided")
	}

	c.atLeast("mode is turned off again", 18)
	c.assume("an operation that turns a mode off counts when it is attempted; goroutines do not touch the terminal (R07)")
}

func init() {
	register("R02", checkR02)
	register("R04", checkR04)
	register("R05", checkR05)
}

// checkR02: the input and its reader.
func checkR02(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		r := newRT(c, p)
		fn := p.fn("", "App.Run")
		seen := map[string]bool{}
		where := ""

		broken := func(st *State, rule, msg string, cc *CallCtx) {
			if r.quiet == 0 {
				c.fail(rule, where, cc.pos(), msg, cc.fr.path(p)...)
			}
		}

		r.goFn = func(cc *CallCtx, body func() []Outcome) {
			// the channels that the goroutine that reads closes at its end
			for _, o := range body() {
				if o.st.has("reads") {
					cc.st.set("reading")

					for _, ch := range o.st.tokensWith("closed:") {
						cc.st.set("readdone:" + ch)
					}
				}
			}
		}
		awaits := func(st *State, ch Val) {
			if st.has("readdone:" + chanKey(ch)) {
				st.set("awaited")
			}
		}
		r.selFn = func(n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) {
			if r.gor == 0 {
				for _, ch := range chans {
					awaits(n.st, ch)
				}
			}

			return nil, true
		}
		r.reFn = func(n *Node, ch Val, in ssa.Instruction) Val {
			if r.gor == 0 {
				awaits(n.st, ch)
			}

			return nil
		}
		r.event = func(st *State, ev string, cc *CallCtx) {
			if r.gor > 0 {
				switch ev {
				case "readloop", "reader.Read":
					st.set("reads")
				case "close":
					st.set("closed:" + chanKey(cc.args[0]))
				}

				return
			}

			switch ev {
			case "open":
				st.set("open")
				seen[ev] = true
			case "fileclose":
				if !st.has("open") {
					broken(st, "input is closed once", "a file is closed that is not open", cc)
				}

				if st.has("reader") {
					broken(st, "input is closed after its reader", "the input is closed before its reader is", cc)
				}

				st.unset("open")
			case "reader.new":
				seen[ev] = true
				st.set("reader")
			case "reader.Cancel":
				if !st.has("reader") || st.has("cancelled") {
					broken(st, "reader is cancelled once", "there is no reader to cancel, or it has been cancelled before", cc)
				}

				st.set("cancelled")
			case "reader.cancelled":
				st.set("cancelled")
				st.set("cancelok")
			case "reader.Close":
				if !st.has("reader") {
					broken(st, "reader is closed once", "there is no open reader to close", cc)
				}

				if !st.has("cancelled") {
					broken(st, "reader is cancelled before it is closed", "the reader is closed without having been cancelled", cc)
				}

				if st.has("cancelok") && st.has("reading") && !st.has("awaited") {
					broken(st, "read loop is awaited before the reader is closed", "the reader is closed before the read loop has been awaited", cc)
				}

				st.unset("reader")
				st.set("readerclosed")
			}
		}

		for _, v := range r.apps() {
			where = v.name + " input, " + goos
			opened := seen["open"]
			seen["open"] = false

			bad := map[string]*State{}
			n := 0

			for _, o := range r.runApp(v) {
				n++

				for _, t := range []string{"open", "reader"} {
					if o.st.has(t) {
						bad[t] = o.st
					}
				}
			}

			if seen["open"] {
				c.want(bad["open"] == nil, "opened input is closed on every exit", where, p.pos(fn.Pos()), "there is a path on which App.Run ends without closing the input it opened")
			}

			seen["open"] = seen["open"] || opened

			c.want(bad["reader"] == nil && n > 0, "reader is closed on every exit", where, p.pos(fn.Pos()), "there is a path on which App.Run ends without closing the input reader")

			for _, rule := range []string{"input is closed once", "input is closed after its reader", "reader is cancelled once", "reader is closed once",
				"reader is cancelled before it is closed", "read loop is awaited before the reader is closed"} {
				if !c.seen[rule+"|"+where] {
					c.ok(rule, where, p.pos(fn.Pos()))
				}
			}
		}

		for _, e := range []string{"open", "reader.new"} {
			c.want(seen[e], "anchor", e+" "+goos, p.pos(fn.Pos()), "App.Run never reaches it: the anchor of the rule was lost")
		}

		r.notesFail("undecided")
	}

	c.atLeast("opened input is closed on every exit", 4)
	c.atLeast("reader is closed on every exit", 6)
}

func chanKey(v Val) string {
	if r, ok := v.(Ref); ok {
		return r.term
	}

	return valKey(v)
}

// checkR04: cancellation, then the awaited goroutines, then the terminal.
func checkR04(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		r := newRT(c, p)
		fn := p.fn("", "App.Run")
		where := ""
		started := map[string]bool{} // goroutines that signal completion

		broken := func(rule, construct, msg string, cc *CallCtx) {
			if r.quiet == 0 {
				c.fail(rule, construct+" ("+where+")", cc.pos(), msg, cc.fr.path(p)...)
			}
		}

		wait := func(st *State, ch string, cc *CallCtx) {
			if !st.has("cancelled") {
				broken("cancel before waiting", "wait", "a goroutine is awaited before the context is cancelled", cc)
			}

			if !st.has("will:" + ch) {
				broken("awaited channel is closed", "channel "+chanPos(p, ch), "the channel is awaited, but no goroutine that was started closes it", cc)
			}

			st.set("awaited:" + ch)
		}

		// late: nothing is exchanged with the others once the completion has been
		// signalled.
		late := func(n *Node, in ssa.Instruction) {
			if r.gor > 0 && len(n.st.tokensWith("closed:")) > 0 {
				if r.quiet == 0 {
					c.fail("completion is signalled last", fname(in.Parent())+" ("+where+")", p.pos(instrPos(in)), "the goroutine goes on to communicate after it has signalled that it has ended")
				}
			}
		}

		r.goFn = func(cc *CallCtx, body func() []Outcome) {
			outs := body()
			name := goName(p, cc)

			// a waiter: receives from a channel, then signals a wait group
			waits := map[string]int{}
			closes := map[string]int{}
			dones := map[string]int{}

			reads := false

			for _, o := range outs {
				reads = reads || o.st.has("reads")

				for _, t := range o.st.tokensWith("recv:") {
					waits[t]++
				}

				for _, t := range o.st.tokensWith("closed:") {
					closes[t]++
				}

				for _, t := range o.st.tokensWith("done:") {
					dones[t]++
				}

				if o.st.has("twice") {
					broken("completion is signalled once", name, "a completion channel may be closed twice", cc)
				}
			}

			for t, n := range closes {
				if n != len(outs) {
					broken("completion is signalled on every exit", name, "there is an exit of the goroutine on which it does not close its completion channel", cc)
				}

				if reads {
					// R02: it is awaited if the reader could be cancelled
					started[name] = true
					continue
				}

				if cc.st.has("will:"+t) || cc.st.has("awaited:"+t) {
					broken("completion is signalled once", name, "two goroutines close the same completion channel", cc)
				}

				if r.quiet == 0 {
					started[name] = true
				}

				cc.st.set("will:" + t)
			}

			for t, n := range dones {
				if n == len(outs) {
					k := 0
					for cc.st.has("wgdone:" + t + "#" + string(rune('0'+k))) {
						k++
					}

					cc.st.set("wgdone:" + t + "#" + string(rune('0'+k)))
				}
			}

			for t, n := range waits {
				if n == len(outs) && len(dones) == 1 {
					cc.st.set("waiter:" + t)
				}
			}
		}
		r.selFn = func(n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) {
			late(n, s)

			if r.gor == 0 && n.st.has("cancelled") {
				for _, ch := range chans {
					if n.st.has("will:" + chanKey(ch)) {
						n.st.set("awaited:" + chanKey(ch))
					}
				}
			}

			return nil, true
		}
		r.reFn = func(n *Node, ch Val, in ssa.Instruction) Val {
			cc := &CallCtx{x: r.Interp, fr: &Frame{fn: in.Parent()}, st: n.st}
			late(n, in)

			if r.gor == 0 {
				if r.chanKind(in.(*ssa.UnOp).X.Type()) == "signal" && !strings.HasPrefix(chanKey(ch), "done(") {
					wait(n.st, chanKey(ch), cc)
				}
			} else if !n.st.has("anydone") {
				n.st.set("recv:" + chanKey(ch))
			}

			return nil
		}
		r.seFn = func(n *Node, ch, v Val, in ssa.Instruction) { late(n, in) }
		r.event = func(st *State, ev string, cc *CallCtx) {
			if r.gor > 0 {
				switch ev {
				case "close":
					k := chanKey(cc.args[0])
					if st.has("closed:" + k) {
						st.set("twice")
					}

					st.set("closed:" + k)
				case "readloop", "reader.Read":
					st.set("reads")
				case "wg.Done":
					st.set("anydone")
					st.set("done:" + valKey(cc.args[0]))
				}

				return
			}

			switch ev {
			case "cancel":
				st.set("cancelled")
			case "wg.Add":
				n, known := int64(0), false
				if v, ok := cc.args[1].(Num); ok {
					n, known = v.l.isConst()
				}

				if !known {
					broken("wait group is balanced", "wait group", "the number added to the wait group cannot be told", cc)
				}

				for k := 0; n > 0; k++ {
					if t := "wgadd:" + valKey(cc.args[0]) + "#" + string(rune('0'+k)); !st.has(t) {
						st.set(t)
						n--
					}
				}
			case "wg.Wait":
				key := valKey(cc.args[0])
				adds, dones := 0, 0

				for _, t := range st.tokens() {
					if strings.HasPrefix(t, "wgadd:"+key+"#") {
						adds++
					}

					if strings.HasPrefix(t, "wgdone:"+key+"#") {
						dones++
					}
				}

				if adds != dones {
					broken("wait group is balanced", "wait group", "the wait group is waited for with a count that differs from the goroutines that signal it", cc)
				}

				if !st.has("cancelled") {
					broken("cancel before waiting", "wait", "goroutines are awaited before the context is cancelled", cc)
				}

				for _, ch := range st.tokensWith("waiter:") {
					wait(st, ch, cc)
				}
			case "backend.DisableRawMode", "backend.LeaveAlternateScreen", "backend.ShowCursor", "backend.DisableBracketedPaste":
				if !st.has("cancelled") {
					return // drawing
				}

				for _, ch := range st.tokensWith("will:") {
					if !st.has("awaited:" + ch) {
						broken("goroutines are awaited before the terminal is restored", "channel "+chanPos(p, ch), "the terminal is restored while a goroutine that signals its completion has not been awaited", cc)
					}
				}

				st.set("restoring")
			}
		}

		restored := 0

		for _, v := range r.apps() {
			where = v.name + " input, " + goos

			for _, o := range r.runApp(v) {
				if o.st.has("restoring") {
					restored++
				}
			}

			for _, rule := range []string{"cancel before waiting", "awaited channel is closed", "completion is signalled once", "completion is signalled on every exit", "completion is signalled last",
				"wait group is balanced", "goroutines are awaited before the terminal is restored"} {
				bad := false
				for k := range c.seen {
					bad = bad || strings.HasPrefix(k, rule+"|") && strings.HasSuffix(k, "("+where+")")
				}

				if !bad {
					c.ok(rule, where, p.pos(fn.Pos()))
				}
			}
		}

		for s := range started {
			c.ok("goroutine signals its completion", s+" "+goos, s)
		}

		c.want(len(started) >= 4, "awaited goroutines", goos, p.pos(fn.Pos()), "the dispatcher, the resize listener, the delivery of the initial command and the read loop do not all signal their completion")
		c.want(restored > 0, "anchor", "restore "+goos, p.pos(fn.Pos()), "the terminal is never restored after the cancellation")
		r.notesFail("undecided")
	}
}

func chanPos(p *Prog, ch string) string {
	var pos int

	if s, ok := strings.CutPrefix(ch, "chan@"); ok {
		for _, r := range s {
			if r < '0' || r > '9' {
				break
			}

			pos = pos*10 + int(r-'0')
		}
	}

	if pos == 0 {
		return ch
	}

	return "made in " + strings.Split(p.pos(token.Pos(pos)), ":")[0]
}

// goName names a goroutine by the function it runs or the one that starts it.
func goName(p *Prog, cc *CallCtx) string {
	if cc.callee != nil {
		return fname(cc.callee)
	}

	return "goroutine of " + fname(cc.fr.fn)
}

// checkR05: panics of user code.
func checkR05(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		r := newRT(c, p)
		fn := p.fn("", "App.Run")
		where := ""
		cmdIn := map[string]bool{}
		callbacks := map[string]bool{}

		broken := func(rule, construct, msg string, cc *CallCtx) {
			if r.quiet == 0 {
				c.fail(rule, construct+" ("+where+")", cc.pos(), msg, cc.fr.path(p)...)
			}
		}

		r.goFn = func(cc *CallCtx, body func() []Outcome) {
			name := goName(p, cc)

			for _, o := range body() {
				if o.panic {
					broken("panic is recovered in its goroutine", name, "a panic of user code ends the program from this goroutine", cc)
				}

				if o.st.has("userpanic") && !o.st.has("reported") {
					broken("panic is reported", name, "a panic of user code is not sent to the event loop", cc)
				}

				if o.st.has("userpanic") {
					cmdIn[name] = true

					if r.quiet == 0 {
						c.ok("panic is reported", name+" "+goos, cc.pos())
					}
				}
			}
		}

		report := func(st *State, t types.Type, v Val) {
			if r.gor == 0 || r.chanKind(t) != "err" {
				return
			}

			if i, ok := v.(Ifc); ok && st.decide(i.nil_) == 0 {
				st.set("reported")
			}
		}

		r.selFn = func(n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) {
			// attempting to report counts: the other case is that the
			// application is ending
			for i, st := range s.States {
				if st.Dir == types.SendOnly && r.gor > 0 && r.chanKind(st.Chan.Type()) == "err" {
					if v, ok := n.env[s.States[i].Send]; ok {
						report(n.st, st.Chan.Type(), v)
					}
				}
			}

			if r.gor == 0 && s.States[k].Dir == types.RecvOnly && r.chanKind(s.States[k].Chan.Type()) == "err" {
				n.st.set("errors")
				return Ifc{nil_: bddFalse, term: "reported"}, true
			}

			return nil, true
		}
		r.reFn = func(n *Node, ch Val, in ssa.Instruction) Val {
			if r.gor == 0 && r.chanKind(in.(*ssa.UnOp).X.Type()) == "err" {
				n.st.set("errors")
				return Ifc{nil_: bddFalse, term: "reported"}
			}

			return nil
		}
		r.seFn = func(n *Node, ch, v Val, in ssa.Instruction) { report(n.st, in.(*ssa.Send).Chan.Type(), v) }
		r.event = func(st *State, ev string, cc *CallCtx) {
			if ev == "userpanic" {
				st.set("userpanic")

				if r.gor == 0 {
					callbacks[cc.name[strings.LastIndexByte(cc.name, '.')+1:]] = true
				}
			}
		}

		for _, v := range r.apps() {
			where = v.name + " input, " + goos
			n := 0

			for _, o := range r.runApp(v) {
				n++

				cc := &CallCtx{x: r.Interp, fr: &Frame{fn: fn}, st: o.st}

				if o.panic {
					broken("panic does not leave App.Run", "App.Run", "a panic propagates out of App.Run", cc)
					continue
				}

				err, ok := o.vals[len(o.vals)-1].(Ifc)
				non := ok && o.st.decide(err.nil_) == 0

				if o.st.has("userpanic") {
					if !non {
						broken("panic becomes an error", "App.Run", "App.Run may return no error after a panic of the model", cc)
					} else {
						c.ok("panic becomes an error", where, p.pos(fn.Pos()))
					}
				}

				if o.st.has("errors") {
					if !non {
						broken("reported error is returned", "App.Run", "App.Run may return no error after one was reported to the event loop", cc)
					} else {
						c.ok("reported error is returned", where, p.pos(fn.Pos()))
					}
				}
			}

			if !c.seen["panic does not leave App.Run|App.Run ("+where+")"] && n > 0 {
				c.ok("panic does not leave App.Run", where, p.pos(fn.Pos()))
			}
		}

		for _, cb := range []string{"Init", "Update", "Render"} {
			c.want(callbacks[cb], "anchor", cb+" "+goos, p.pos(fn.Pos()), "App.Run never calls the model's "+cb)
		}

		c.want(len(cmdIn) >= 3, "anchor", "commands "+goos, p.pos(fn.Pos()), "fewer than three kinds of goroutine run commands (single, sequence, batch in a sequence)")
		r.notesFail("undecided")
	}

	c.atLeast("panic becomes an error", 6)
	c.atLeast("reported error is returned", 6)
	c.atLeast("panic is reported", 6)
}
