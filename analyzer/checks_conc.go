package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R03", checkR03)
	register("R07", checkR07)
}

var bothOS = []string{"linux", "windows"}

// ctxClass explains whether a context is cancelled by the application.
type ctxInfo struct {
	c       *Calls
	cancels map[ssa.Value]bool // cancel functions that the runtime calls
}

func newCtxInfo(c *Calls) *ctxInfo {
	ci := &ctxInfo{c: c, cancels: map[ssa.Value]bool{}}

	for _, f := range c.p.all {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok || call.Common().IsInvoke() || call.Common().StaticCallee() != nil {
				return
			}

			if typeName(call.Common().Value.Type()) == "context.CancelFunc" {
				for _, o := range c.origins(call.Common().Value) {
					ci.cancels[o] = true
				}
			}
		})
	}

	return ci
}

// bad returns why a context is not the application's, or "".
func (ci *ctxInfo) bad(v ssa.Value, depth int) string {
	os := ci.c.origins(v)
	if len(os) == 0 {
		return "it has no known origin"
	}

	for _, o := range os {
		ex, ok := o.(*ssa.Extract)
		if !ok || depth > 6 {
			return "it may be " + o.String() + ", which the runtime does not cancel"
		}

		call, ok := ex.Tuple.(*ssa.Call)
		if !ok || len(call.Call.Args) == 0 {
			return "it may be " + o.String()
		}

		name := calleeName(call)
		if name == "golang.org/x/sync/errgroup.WithContext" {
			if s := ci.bad(call.Call.Args[0], depth+1); s != "" {
				return s
			}

			continue
		}

		switch name {
		case "context.WithCancel", "context.WithCancelCause", "context.WithTimeout", "context.WithDeadline":
		default:
			return "it may come from " + name
		}

		called := false

		for _, r := range *call.Referrers() {
			if e2, ok := r.(*ssa.Extract); ok && e2.Index == 1 && ci.cancels[e2] {
				called = true
			}
		}

		if called {
			continue
		}

		if s := ci.bad(call.Call.Args[0], depth+1); s != "" {
			return "it may come from " + name + " at " + ci.c.p.pos(call.Pos()) + ", whose cancel function the runtime never calls"
		}
	}

	return ""
}

func isTimerChan(c *Calls, v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		return calleeName(v) == "time.After" || calleeName(v) == "time.Tick"
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			n := typeName(fa.X.Type())
			return n == "time.Timer" || n == "time.Ticker"
		}
	}

	os := c.origins(v)
	if len(os) == 0 {
		return false
	}

	for _, o := range os {
		if o == v {
			return false
		}

		switch o.(type) {
		case *ssa.Call, *ssa.UnOp:
			if !isTimerChan(c, o) {
				return false
			}
		default:
			return false
		}
	}

	return true
}

// doneCall returns the context whose Done channel v is.
func doneCtx(c *Calls, v ssa.Value) ssa.Value {
	call, ok := v.(*ssa.Call)
	if !ok {
		os := c.origins(v)
		if len(os) != 1 {
			return nil
		}

		call, ok = os[0].(*ssa.Call)
		if !ok {
			return nil
		}
	}

	if call.Call.IsInvoke() && call.Call.Method.Name() == "Done" && typeName(call.Call.Value.Type()) == "context.Context" {
		return call.Call.Value
	}

	return nil
}

// closedChans are the channels that are closed somewhere.
func closedChans(c *Calls) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}

	for _, f := range c.p.all {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok || calleeName(call) != "builtin.close" {
				return
			}

			for _, o := range c.origins(call.Common().Args[0]) {
				out[o] = true
			}
		})
	}

	return out
}

func reachable(from *ssa.BasicBlock, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}

	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}

		if seen[b] {
			return false
		}

		seen[b] = true

		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}

		return false
	}

	return rec(from)
}

// caseBlock is the block run for case k of a select.
func caseBlock(sel *ssa.Select, k int) *ssa.BasicBlock {
	if sel.Referrers() == nil {
		return nil
	}

	for _, r := range *sel.Referrers() {
		ex, ok := r.(*ssa.Extract)
		if !ok || ex.Index != 0 || ex.Referrers() == nil {
			continue
		}

		for _, r2 := range *ex.Referrers() {
			b, ok := r2.(*ssa.BinOp)
			if !ok || b.Op != token.EQL {
				continue
			}

			cst, ok := b.Y.(*ssa.Const)
			if !ok || cst.Value == nil {
				continue
			}

			if n, _ := constant.Int64Val(cst.Value); int(n) != k {
				continue
			}

			for _, r3 := range *b.Referrers() {
				if i, ok := r3.(*ssa.If); ok {
					return i.Block().Succs[0]
				}
			}
		}
	}

	return nil
}

func checkR03(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		calls := newCalls(p)
		ci := newCtxInfo(calls)
		closed := closedChans(calls)
		nth := map[string]int{}

		name := func(kind string, in ssa.Instruction, ch ssa.Value) string {
			s := fname(in.Parent()) + " " + kind + " " + ch.Type().Underlying().String()
			nth[s]++

			if n := nth[s]; n > 1 {
				s += fmt.Sprintf(" #%d", n)
			}

			return goos + ": " + s
		}

		for _, f := range p.all {
			eachInstr(f, func(in ssa.Instruction) {
				pos := p.pos(instrPos(in))

				switch in := in.(type) {
				case *ssa.Send:
					c.fail("send gives up", name("send on", in, in.Chan), pos, "a plain send blocks forever when nothing receives: it must be a select with the application's ctx.Done()")
				case *ssa.UnOp:
					if in.Op != token.ARROW {
						return
					}

					n := name("receive from", in, in.X)

					if isTimerChan(calls, in.X) {
						c.ok("receive is bounded", n, pos)
						return
					}

					if ctx := doneCtx(calls, in.X); ctx != nil {
						why := ci.bad(ctx, 0)
						c.want(why == "", "receive is bounded", n, pos, "waits for a context that is not the application's: "+why)

						return
					}

					os := calls.origins(in.X)
					good := len(os) > 0

					for _, o := range os {
						mc, ok := o.(*ssa.MakeChan)
						if !ok || !closed[o] || !isStructChan(mc.Type()) {
							good = false
						}
					}

					c.want(good, "receive is bounded", n, pos, "a plain receive from a channel that is not proven to be closed by the goroutine awaited")
				case *ssa.Select:
					if !in.Blocking {
						return
					}

					n := name("select over", in, in.States[0].Chan)
					if len(in.States) == 0 {
						c.fail("select gives up", n, pos, "an empty select blocks forever")
						return
					}

					good := false
					why := "no case receives from the application's ctx.Done()"

					for k, s := range in.States {
						if s.Dir != types.RecvOnly {
							continue
						}

						if isTimerChan(calls, s.Chan) {
							good = true
							continue
						}

						ctx := doneCtx(calls, s.Chan)
						if ctx == nil {
							continue
						}

						if w := ci.bad(ctx, 0); w != "" {
							why = "the context observed is not the application's: " + w
							continue
						}

						if b := caseBlock(in, k); b != nil && reachable(b, in.Block()) && !boundedLoop(in.Block()) {
							why = "after the context is done the same select is entered again without end"
							continue
						}

						good = true
					}

					c.want(good, "select gives up", n, pos, why)
				}
			})
		}

		// The context of the application is derived from the one the user gave.
		for _, f := range p.all {
			if fnPkg(f).Path() != modPath {
				continue
			}

			eachInstr(f, func(in ssa.Instruction) {
				call, ok := in.(*ssa.Call)
				if !ok || !strings.HasPrefix(calleeName(call), "context.With") || len(call.Call.Args) == 0 {
					return
				}

				var own *ssa.Parameter
				for _, q := range f.Params {
					if typeName(q.Type()) == "context.Context" {
						own = q
					}
				}

				if own == nil {
					return
				}

				found := false
				for _, o := range calls.origins(call.Call.Args[0]) {
					found = found || o == own
				}

				c.want(found, "configured context", goos+": "+fname(f), p.pos(call.Pos()), "the context made does not depend on the context the function is given")
			})
		}

		// A context that is stored is stored with its own cancel function.
		ctxKey, cancelKey := "", ""
		appT := p.named("", "App")
		st := appT.Underlying().(*types.Struct)

		for i := 0; i < st.NumFields(); i++ {
			switch typeName(st.Field(i).Type()) {
			case "context.Context":
				ctxKey = fieldKey(appT, i)
			case "context.CancelFunc":
				cancelKey = fieldKey(appT, i)
			}
		}

		tuples := func(k string, idx int) map[ssa.Value]bool {
			out := map[ssa.Value]bool{}

			for _, v := range calls.stores[k] {
				for _, o := range calls.origins(v) {
					if ex, ok := o.(*ssa.Extract); ok && ex.Index == idx {
						out[ex.Tuple] = true
					} else {
						out[o] = true
					}
				}
			}

			return out
		}

		a, b := tuples(ctxKey, 0), tuples(cancelKey, 1)
		same := len(a) > 0 && len(a) == len(b)

		for t := range a {
			same = same && b[t]
		}

		c.want(same, "context and its cancel function", goos+": App", p.pos(appT.Obj().Pos()),
			"the stored cancel functions are not those of the stored contexts: cancelling would not cancel what the runtime observes")
	}

	c.atLeast("select gives up", 8) // helpers may share a select
	c.atLeast("receive is bounded", 4)
	c.atLeast("configured context", 2)
	c.assume("a command, the reader's Read and the terminal's I/O are bounded by the user, the canceller of the reader and the operating system")
}

func isStructChan(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}

	st, ok := ch.Elem().Underlying().(*types.Struct)

	return ok && st.NumFields() == 0
}

// boundedLoop reports that on each iteration of the loop around b a condition
// that can leave the loop is evaluated before b.
func boundedLoop(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if !reachable(b, d) || d == b && !selfReach(b) {
			continue
		}

		if _, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); !ok || d == b {
			continue
		}

		for _, s := range d.Succs {
			if !reachable(s, d) {
				return true
			}
		}
	}

	return false
}

func selfReach(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if reachable(s, b) {
			return true
		}
	}

	return false
}

// R07: goroutines of the runtime never reach the model or the terminal.
func checkR07(c *Check) {
	for _, goos := range bothOS {
		p := c.prog(goos)
		calls := newCalls(p)

		model := p.named("", "Model").Underlying().(*types.Interface)
		widget := p.named("", "Widget")
		backend := p.named("", "TerminalBackend").Underlying().(*types.Interface)
		terminal := p.named("", "Terminal")
		_ = widget

		// The operations of a backend that only ask, and change nothing.
		asks := map[string]bool{"GetSize": true, "Size": true, "Read": true, "Input": true, "GetCursorPosition": true}

		touches := func(in ssa.Instruction) string {
			switch in := in.(type) {
			case ssa.CallInstruction:
				cc := in.Common()
				if cc.IsInvoke() {
					tn := typeName(cc.Value.Type())
					it, _ := cc.Value.Type().Underlying().(*types.Interface)

					if it != nil && hasMethod(model, cc.Method.Name()) && (types.Implements(cc.Value.Type(), widget.Underlying().(*types.Interface)) || tn == modPath+".Model") &&
						strings.HasPrefix(tn, modPath) {
						return "calls " + tn + "." + cc.Method.Name()
					}

					if hasMethod(backend, cc.Method.Name()) && types.Implements(cc.Value.Type(), backend) && !asks[cc.Method.Name()] {
						return "calls the terminal operation " + cc.Method.Name()
					}

					return ""
				}

				if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && p.inRepo(f) {
					rt := f.Signature.Recv().Type()
					if types.Implements(rt, backend) && hasMethod(backend, f.Name()) && !asks[f.Name()] {
						return "calls the terminal operation " + fname(f)
					}
				}
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == typeName(terminal) {
					return "writes a field of the terminal"
				}

				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && typeName(in.Val.Type()) == modPath+".Model" {
					return "replaces the model stored in " + typeName(fa.X.Type())
				}
			}

			return ""
		}

		roots := calls.goRoots()
		for _, r := range sortedFns(roots) {
			if !p.inRepo(r) || len(r.Blocks) == 0 {
				continue
			}

			bad := false
			calls.reach(r, func(f *ssa.Function, path []*ssa.Function) bool {
				eachInstr(f, func(in ssa.Instruction) {
					if s := touches(in); s != "" {
						bad = true
						c.fail("goroutine stays away from model and terminal", goos+": "+fname(r)+": "+s, p.pos(instrPos(in)),
							"started at "+p.pos(roots[r][0].Pos())+", this goroutine "+s, pathStr(path)...)
					}
				})

				return true
			})

			if !bad {
				c.ok("goroutine stays away from model and terminal", goos+": "+fname(r), p.pos(r.Pos()))
			}
		}

		// The same rule finds the operations where they are allowed: it is not blind.
		run := p.fn("", "App.Run")
		found := map[string]bool{}
		calls.reach(run, func(f *ssa.Function, path []*ssa.Function) bool {
			eachInstr(f, func(in ssa.Instruction) {
				if s := touches(in); s != "" {
					found[s] = true
				}
			})

			return true
		})

		for _, m := range []string{"Init", "Update"} {
			c.want(found["calls "+modPath+".Model."+m], "reached from App.Run", goos+": Model."+m, p.pos(run.Pos()), "App.Run is not seen to call the model's "+m)
		}

		c.want(len(found) >= 10, "operations reached from App.Run", goos, p.pos(run.Pos()), fmt.Sprintf("only %d operations on the model and the terminal were found", len(found)))
	}

	c.atLeast("goroutine stays away from model and terminal", 8)
}

func hasMethod(it *types.Interface, name string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
	}

	return false
}
