package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The runtime harness: App.Run is interpreted from NewApp on, with the user's
// model, commands and the backend's operations as unknowns that may succeed,
// fail or (user code) panic. The rules are automata over the events.

// tokens are the set of facts of an automaton, kept in the ghost.
func (st *State) has(t string) bool {
	return strings.Contains(st.ghost, "|"+t+"|")
}

func (st *State) set(t string) {
	if st.has(t) {
		return
	}

	ts := append(st.tokens(), t)
	sort.Strings(ts)
	st.ghost = "|" + strings.Join(ts, "|") + "|"
}

func (st *State) unset(t string) {
	var ts []string

	for _, o := range st.tokens() {
		if o != t {
			ts = append(ts, o)
		}
	}

	if len(ts) == 0 {
		st.ghost = ""
		return
	}

	st.ghost = "|" + strings.Join(ts, "|") + "|"
}

func (st *State) tokens() []string {
	return strings.FieldsFunc(st.ghost, func(r rune) bool { return r == '|' })
}

func (st *State) tokensWith(prefix string) []string {
	var out []string

	for _, t := range st.tokens() {
		if s, ok := strings.CutPrefix(t, prefix); ok {
			out = append(out, s)
		}
	}

	return out
}

// rt is the harness; the fields are the rule's automaton.
type rt struct {
	*ai
	backend   map[string]bool // the operations of TerminalBackend
	reader    *types.Interface
	gor       int  // depth of goroutines
	panics    bool // user code may panic
	failures  bool // operations may fail
	anyBuffer bool

	event func(st *State, ev string, c *CallCtx)                                 // an operation is attempted
	user  func(c *CallCtx, what string) (bool, []Outcome)                        // user code is called
	goFn  func(c *CallCtx, body func() []Outcome)                                // a goroutine is started
	selFn func(n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) // a case of a select
	reFn  func(n *Node, ch Val, in ssa.Instruction) Val                          // a receive
	seFn  func(n *Node, ch, v Val, in ssa.Instruction)                           // a send
}

// chanElem names the kind of a channel: msg, cmd, err or signal.
func (r *rt) chanKind(t types.Type) string {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return "?"
	}

	e := ch.Elem()

	switch {
	case types.Identical(e, r.p.named("", "Msg")):
		return "msg"
	case types.Identical(e, r.p.named("", "Cmd")):
		return "cmd"
	case isErrorType(e):
		return "err"
	}

	return "signal"
}

func newRT(c *Check, p *Prog) *rt {
	a := newAI(c, p)
	r := &rt{ai: a, backend: map[string]bool{}, panics: true, failures: true}

	be := p.named("", "TerminalBackend").Underlying().(*types.Interface)
	for i := 0; i < be.NumMethods(); i++ {
		if m := be.Method(i); m.Name() != "Input" && m.Name() != "Output" {
			r.backend[m.Name()] = true
		}
	}

	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "github.com/muesli/cancelreader" {
			if o := pk.Pkg.Scope().Lookup("CancelReader"); o != nil {
				r.reader = o.Type().Underlying().(*types.Interface)
			}
		}
	}

	if r.reader == nil {
		anchorf("cancelreader.CancelReader")
	}

	a.maxNodes, a.coarse = 4, true
	a.hooks.call = r.call
	a.hooks.goStmt = r.goStmt
	a.hooks.sel = func(fr *Frame, n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) {
		if r.selFn != nil {
			return r.selFn(n, s, k, chans, send)
		}

		return nil, true
	}
	a.hooks.recv = func(fr *Frame, n *Node, ch Val, in ssa.Instruction) Val {
		if r.reFn != nil {
			return r.reFn(n, ch, in)
		}

		return nil
	}
	a.hooks.send = func(fr *Frame, n *Node, ch, v Val, in ssa.Instruction) {
		if r.seFn != nil {
			r.seFn(n, ch, v, in)
		}
	}
	a.hooks.close = func(fr *Frame, st *State, ch Val, in ssa.Instruction) {
		r.ev(st, "close", &CallCtx{x: a.Interp, fr: fr, st: st, args: []Val{ch}})
	}

	return r
}

func (r *rt) ev(st *State, name string, c *CallCtx) {
	if r.event != nil {
		r.event(st, name, c)
	}
}

// results are the outcomes of an operation: success, and failure if its last
// result is an error.
func (r *rt) results(c *CallCtx, name string, good func(st *State)) []Outcome {
	sig := c.sig
	n := sig.Results().Len()
	st := c.st

	var outs []Outcome

	hasErr := n > 0 && isErrorType(sig.Results().At(n-1).Type())

	if hasErr && r.failures {
		f := st.fork()

		var vals []Val
		for i := 0; i < n-1; i++ {
			t := sig.Results().At(i).Type()

			switch t.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				vals = append(vals, r.zeroVal(t))
			default:
				vals = append(vals, r.fresh(f, t, freshName(name)))
			}
		}

		outs = append(outs, Outcome{st: f, vals: append(vals, Ifc{nil_: bddFalse, term: "error:" + name})})
	}

	var vals []Val
	for i := 0; i < n; i++ {
		t := sig.Results().At(i).Type()

		switch {
		case i == n-1 && hasErr:
			vals = append(vals, Ifc{nil_: bddTrue})
		default:
			v := r.fresh(st, t, freshName(name))

			switch w := v.(type) {
			case Ptr:
				w.nil_ = bddFalse
				v = w
			case Ifc:
				w.nil_ = bddFalse
				v = w
			}

			vals = append(vals, v)
		}
	}

	if good != nil {
		good(st)
	}

	return append(outs, Outcome{st: st, vals: vals})
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := deref(types.Unalias(t)).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func (r *rt) call(c *CallCtx) (bool, []Outcome) {
	p := r.p
	sig := c.sig

	// the backend
	for _, pre := range []string{pkgPath("") + ".DefaultBackend.", "iface:" + pkgPath("") + ".TerminalBackend."} {
		if op, ok := strings.CutPrefix(c.name, pre); ok && r.backend[op] {
			r.ev(c.st, "backend."+op, c)
			return true, r.results(c, op, nil)
		}
	}

	// user code
	switch c.name {
	case "iface:" + pkgPath("") + ".Model.Init", "iface:" + pkgPath("") + ".Model.Update", "iface:" + pkgPath("") + ".Model.Render",
		"iface:" + pkgPath("") + ".Widget.Render":
		return r.userCall(c, c.name[strings.LastIndexByte(c.name, '.')+1:])
	}

	if strings.HasPrefix(c.name, "dyn:") && c.instr != nil && types.Identical(c.instr.Common().Value.Type(), p.named("", "Cmd")) {
		return r.userCall(c, "cmd")
	}

	if strings.HasPrefix(c.name, "dyn:context.CancelFunc") || strings.HasPrefix(c.fun.term, "cancel") && strings.HasPrefix(c.name, "dyn:") {
		r.ev(c.st, "cancel", c)
		return c.ret()
	}

	// the context
	switch c.name {
	case "iface:context.Context.Done":
		return c.ret(Ref{nil_: bddFalse, term: "done(" + valKey(c.args[0]) + ")"})
	case "context.WithCancel":
		return false, nil
	case "golang.org/x/sync/errgroup.Group.Go":
		r.spawn(c, c.args[1])
		return c.ret()
	case "golang.org/x/sync/errgroup.Group.Wait":
		r.ev(c.st, "groupwait", c)
		return true, r.results(c, "Wait", nil)
	case "sync.WaitGroup.Add":
		r.ev(c.st, "wg.Add", c)
		return c.ret()
	case "sync.WaitGroup.Done":
		r.ev(c.st, "wg.Done", c)
		return c.ret()
	case "sync.WaitGroup.Wait":
		r.ev(c.st, "wg.Wait", c)
		return c.ret()
	case "sync.WaitGroup.Go":
		r.spawn(c, c.args[1])
		return c.ret()
	case "os.Open", "os.OpenFile":
		return true, r.results(c, c.name, func(st *State) { r.ev(st, "open", c) })
	case "os.File.Close":
		r.ev(c.st, "fileclose", c)
		return true, r.results(c, c.name, nil)
	case "time.After":
		return c.ret(Ref{nil_: bddFalse, term: "timer"})
	case "github.com/charmbracelet/x/term.IsTerminal":
		return c.ret(Boo{bddVar(atomOf(freshName("isTerminal")))})
	}

	// the input reader: what makes one, and its operations
	rs := sig.Results()
	if c.callee != nil && rs.Len() == 2 && isErrorType(rs.At(1).Type()) && isNamed(rs.At(0).Type(), "github.com/muesli/cancelreader", "CancelReader") {
		return true, r.results(c, "newReader", func(st *State) { r.ev(st, "reader.new", c) })
	}

	if m := methodName(c, r.reader); m != "" {
		r.ev(c.st, "reader."+m, c)

		if m == "Cancel" {
			f := c.st.fork()
			r.ev(f, "reader.cancelled", c)

			return true, []Outcome{{st: c.st, vals: []Val{Boo{bddFalse}}}, {st: f, vals: []Val{Boo{bddTrue}}}}
		}

		return true, r.results(c, "reader."+m, nil)
	}

	// the read loop: decoding is no concern of the runtime
	if c.callee != nil && p.inRepo(c.callee) && c.callee.Signature.Recv() == nil {
		ps := sig.Params()
		for i := 0; i < ps.Len(); i++ {
			if ch, ok := ps.At(i).Type().Underlying().(*types.Chan); ok && ch.Dir() == types.SendOnly && r.chanKind(ch) == "msg" {
				r.ev(c.st, "readloop", c)
				return true, r.results(c, "readInputs", nil)
			}
		}
	}

	// the contents of buffers are no concern of the runtime
	if c.callee != nil && p.inRepo(c.callee) {
		if recv := recvType(c.callee); recv != nil && isNamed(recv, pkgPath(""), "Buffer") {
			if r.event != nil {
				r.ev(c.st, "buffer."+c.callee.Name(), c)
			}

			return true, r.opaque(c)
		}

		if rs.Len() == 1 && isNamed(rs.At(0).Type(), pkgPath(""), "Buffer") && recvType(c.callee) == nil {
			return true, r.opaque(c)
		}
	}

	return false, nil
}

// methodName is the method of an interface that a call calls, through the
// interface or on a type that implements it.
func methodName(c *CallCtx, it *types.Interface) string {
	cc := c.instr
	if cc == nil {
		return ""
	}

	name := ""

	if cc.Common().IsInvoke() {
		if types.Identical(cc.Common().Value.Type().Underlying(), it) {
			return cc.Common().Method.Name()
		}
	}

	if c.callee != nil {
		if rt := recvType(c.callee); rt != nil && (types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it)) {
			name = c.callee.Name()
		}
	}

	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return name
		}
	}

	return ""
}

func (r *rt) userCall(c *CallCtx, what string) (bool, []Outcome) {
	if r.user != nil {
		if done, outs := r.user(c, what); done {
			return true, outs
		}
	}

	var outs []Outcome

	if r.panics {
		f := c.st.fork()
		r.ev(f, "userpanic", c)
		outs = append(outs, Outcome{st: f, panic: true})
	}

	var vals []Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		v := r.fresh(c.st, c.sig.Results().At(i).Type(), freshName(what))

		if w, ok := v.(Ifc); ok && types.Identical(c.sig.Results().At(i).Type(), r.p.named("", "Model")) {
			w.nil_ = bddFalse
			v = w
		}

		vals = append(vals, v)
	}

	return true, append(outs, Outcome{st: c.st, vals: vals})
}

func (r *rt) goStmt(c *CallCtx) {
	if r.goFn == nil {
		return
	}

	r.goFn(c, func() []Outcome {
		return r.inGoroutine(c.st, func(st *State) []Outcome { d := *c; d.st = st; return r.doCall(&d, false) })
	})
}

// spawn starts a function value in a goroutine.
func (r *rt) spawn(c *CallCtx, fv Val) {
	f, ok := fv.(Fun)
	if r.goFn == nil || !ok || f.fn == nil {
		return
	}

	r.goFn(c, func() []Outcome {
		return r.inGoroutine(c.st, func(st *State) []Outcome { return r.run(f.fn, nil, f.binds, st, c.fr, c.instr, false) })
	})
}

// inGoroutine interprets the body of a goroutine from the state in which it is
// started, with a ghost of its own.
func (r *rt) inGoroutine(st *State, do func(st *State) []Outcome) []Outcome {
	s := st.fork()
	s.ghost = ""
	s.panic = nil
	r.gor++
	q := r.quiet
	outs := do(s)
	r.quiet = q
	r.gor--

	return outs
}

// app is the application NewApp makes, with each kind of input.
func (r *rt) apps() []appVariant {
	p := r.p
	st := r.newState()
	newApp := p.fn("", "NewApp")
	model := r.fresh(st, newApp.Params[0].Type(), "model0").(Ifc)
	model.nil_ = bddFalse

	var out []appVariant

	for _, o := range r.exec(newApp, st, model) {
		if o.panic {
			continue
		}

		out = append(out, appVariant{"default", o.st, o.vals[0], model})

		// the other kinds of input
		s := p.named("", "App").Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()

			it, ok := ft.Underlying().(*types.Interface)
			if !ok || !isRepoType(ft) || types.Identical(ft, p.named("", "Model")) {
				continue
			}

			sc := p.pkg("").Pkg.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || types.IsInterface(tn.Type()) || !types.Implements(tn.Type(), it) {
					continue
				}

				cur, _ := o.vals[0].(Tup).fs[i].(Ifc)
				if cur.typ != nil && types.Identical(cur.typ, tn.Type()) {
					continue
				}

				s2 := o.st.fork()
				t := Tup{append([]Val(nil), o.vals[0].(Tup).fs...)}
				t.fs[i] = Ifc{nil_: bddFalse, typ: tn.Type(), val: r.fresh(s2, tn.Type(), "input")}
				out = append(out, appVariant{tn.Name(), s2, t, model})
			}
		}
	}

	return out
}

type appVariant struct {
	name  string
	st    *State
	app   Val
	model Ifc
}

func (r *rt) runApp(v appVariant) []Outcome {
	fn := r.p.fn("", "App.Run")
	rv, _ := r.recv(fn, v.st, v.app)

	return r.exec(fn, v.st.fork(), rv)
}

// tokensOf the rule's ghost, for messages.
func showTokens(st *State) string { return strings.Join(st.tokens(), ", ") }

var _ = fmt.Sprint
