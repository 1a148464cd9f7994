package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("R09", checkR09)
}

// checkR09 follows every error that an operation may return along every path of
// its function on which it is not known to be nil: it has to be returned
// (wrapped so that it can be found), kept in memory that is returned, sent to
// somebody, passed on, or answered by another operation, before the function
// ends or the value is lost.
func checkR09(c *Check) {
	for _, goos := range []string{"linux", "windows"} {
		p := c.prog(goos)
		calls := newCalls(p)
		tag := ""

		if goos != "linux" {
			tag = " (" + goos + ")"
		}

		kept := map[string]string{} // fields of type error that are set

		for _, f := range p.all {
			if len(f.Blocks) == 0 || f.Synthetic != "" && !strings.Contains(f.Synthetic, "instance") {
				continue
			}

			// commands and terminals, not the programs of users
			path := ""
			if pkg := fnPkg(f); pkg != nil {
				path = pkg.Path()
			}

			if path != modPath && !strings.HasPrefix(path, modPath+"/internal/") {
				continue
			}

			e := &errFlow{p: p, calls: calls, f: f, kept: kept}

			nth := map[string]int{}

			eachInstr(f, func(in ssa.Instruction) {
				e.chosen = nil

				name, vals, ok := e.source(in)
				if !ok {
					return
				}

				nth[name]++

				if n := nth[name]; n > 1 {
					name += fmt.Sprintf(" #%d", n)
				}

				what := fname(f) + ": the error of " + name + tag

				if vals == nil {
					c.fail("error is not lost", what, p.at(in), "the error is not looked at")

					return
				}

				bad, undecided := e.follow(in, vals)

				switch {
				case undecided:
					c.fail("undecided", what, p.at(in), "too many paths")
				case bad != nil:
					c.fail("error is not lost", what, p.at(in), bad.why, bad.path...)
				default:
					c.ok("error is not lost", what, p.at(in))
				}
			})

			// what is deferred must keep the error that its function is about to return
			for _, v := range e.pending() {
				what := fname(f) + ": the error about to be returned, " + v.Name() + tag

				bad, undecided := e.followFrom(f.Blocks[0], 0, map[ssa.Value]bool{v: true}, nil)

				switch {
				case undecided:
					c.fail("undecided", what, p.pos(f.Pos()), "too many paths")
				case bad != nil:
					c.fail("pending error is kept", what, p.pos(f.Pos()), bad.why, bad.path...)
				default:
					c.ok("pending error is kept", what, p.pos(f.Pos()))
				}
			}
		}

		for k, pos := range kept {
			returned := false

			for _, f := range p.all {
				eachInstr(f, func(in ssa.Instruction) {
					r, ok := in.(*ssa.Return)
					if !ok {
						return
					}

					for _, v := range r.Results {
						if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && memKey(u.X) == k {
							returned = true
						}
					}
				})
			}

			c.want(returned, "kept error is returned", strings.TrimPrefix(k, "field:"+modPath+".")+tag, pos, "no function returns the error that is kept here")
		}
	}

	c.atLeast("error is not lost", 40)
	c.assume("an error that is answered by another operation, whose error is followed as well, is answered by an alternative")
}

type errFlow struct {
	p     *Prog
	calls *Calls
	f     *ssa.Function
	kept  map[string]string

	chosen map[*ssa.Select]int // the case of a select that gave the error
}

type lostError struct {
	why  string
	path []string
}

func isErrType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// source: the instruction gives the error of an operation; the values are nil if
// nobody can look at it.
func (e *errFlow) source(in ssa.Instruction) (string, []ssa.Value, bool) {
	switch in := in.(type) {
	case ssa.CallInstruction:
		return e.callSource(in)
	case *ssa.UnOp:
		if in.Op == token.ARROW {
			if ch := in.X.Type().Underlying().(*types.Chan); isErrType(ch.Elem()) {
				if in.CommaOk {
					return "receiving", extracts(in, 0), true
				}

				return "receiving", []ssa.Value{in}, true
			}
		}
	case *ssa.Select:
		at := 2

		for i, s := range in.States {
			if s.Dir != types.RecvOnly {
				continue
			}

			if isErrType(s.Chan.Type().Underlying().(*types.Chan).Elem()) {
				e.chosen = map[*ssa.Select]int{in: i}

				return "receiving", extracts(in, at), true
			}

			at++
		}
	}

	return "", nil, false
}

func (e *errFlow) callSource(in ssa.CallInstruction) (string, []ssa.Value, bool) {
	cc := in.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return "", nil, false
	}

	res := cc.Signature().Results()
	if res.Len() == 0 || !isErrType(res.At(res.Len()-1).Type()) {
		return "", nil, false
	}

	name := ""

	if cc.IsInvoke() {
		name = cc.Method.Name()

		recv := types.Unalias(cc.Value.Type()).String()

		// the end of a context is not the error of an operation
		if recv == "context.Context" || name == "Close" && strings.HasPrefix(recv, "io.") {
			return "", nil, false
		}

		name = typeName(cc.Value.Type()) + "." + name
	} else if g := cc.StaticCallee(); g != nil {
		name = fname(g)

		if pkg := fnPkg(g); pkg != nil {
			if g.Name() == "Close" && pkg.Path() == "os" {
				return "", nil, false
			}

			switch pkg.Path() {
			case "errors", "strconv", "strings", "bytes", "unicode/utf8", "golang.org/x/sync/errgroup", "context":
				return "", nil, false // make errors, convert text, or report the errors of others
			case "fmt":
				if g.Name() == "Errorf" || strings.HasPrefix(g.Name(), "Print") {
					return "", nil, false
				}
			}
		}
	} else {
		name = "a function value"

		if e.closesInput(cc.Value) {
			return "", nil, false
		}

		if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
			name = n.Obj().Name()
		}
	}

	call, ok := in.(*ssa.Call)
	if !ok {
		if _, isGo := in.(*ssa.Go); isGo {
			return name, nil, true
		}

		return name, nil, true // deferred: its results are discarded
	}

	if res.Len() == 1 {
		if len(*call.Referrers()) == 0 {
			return name, nil, true
		}

		return name, []ssa.Value{call}, true
	}

	return name, extracts(call, res.Len()-1), true
}

// closesInput: the function value does nothing but to close something.
func (e *errFlow) closesInput(v ssa.Value) bool {
	found := false

	for _, o := range e.calls.origins(v) {
		if isNilConst(o) {
			continue
		}

		if _, ok := o.(*ssa.Alloc); ok {
			continue // a variable, whose values are followed too
		}

		fn := funcOf(o)
		if fn == nil {
			return false
		}

		fn = unwrapFn(fn)

		if fn.Name() != "Close" {
			// a function around it
			closes := false

			eachInstr(fn, func(in ssa.Instruction) {
				if call, ok := in.(ssa.CallInstruction); ok {
					name := ""
					if call.Common().IsInvoke() {
						name = call.Common().Method.Name()
					} else if g := call.Common().StaticCallee(); g != nil {
						name = g.Name()
					}

					closes = closes || name == "Close"
				}
			})

			if !closes || fn.Object() != nil {
				return false
			}
		}

		found = true
	}

	return found
}

func extracts(v ssa.Value, i int) []ssa.Value {
	var out []ssa.Value

	for _, r := range *v.Referrers() {
		if x, ok := r.(*ssa.Extract); ok && x.Index == i {
			out = append(out, x)
		}
	}

	return out
}

// pending are the captured error variables of deferred closures, and the error
// pointers of deferred functions.
func (e *errFlow) pending() []ssa.Value {
	var out []ssa.Value

	deferred := false

	for _, s := range e.calls.sites[e.f] {
		if s.kind == "defer" {
			deferred = true
		}
	}

	if !deferred {
		return nil
	}

	for _, v := range e.f.FreeVars {
		if isPtr(v.Type()) && isErrType(deref(v.Type())) {
			out = append(out, v)
		}
	}

	for _, v := range e.f.Params {
		if isPtr(v.Type()) && isErrType(deref(v.Type())) {
			out = append(out, v)
		}
	}

	return out
}

// follow an error from where it comes from.
func (e *errFlow) follow(in ssa.Instruction, vals []ssa.Value) (*lostError, bool) {
	set := map[ssa.Value]bool{}
	for _, v := range vals {
		set[v] = true
	}

	b := in.Block()

	for i, x := range b.Instrs {
		if x == in {
			return e.followFrom(b, i+1, set, in)
		}
	}

	return nil, true
}

type errState struct {
	b    *ssa.BasicBlock
	from *ssa.BasicBlock
	at   int
	set  map[ssa.Value]bool
	path []string
}

func setKey(b *ssa.BasicBlock, at int, set map[ssa.Value]bool) string {
	var names []string
	for v := range set {
		names = append(names, fmt.Sprintf("%p", v))
	}

	sort.Strings(names)

	return fmt.Sprint(b.Index, at, names)
}

// followFrom explores the paths on which the error is among the values of the set,
// directly or inside of another error or of memory.
func (e *errFlow) followFrom(b *ssa.BasicBlock, at int, set map[ssa.Value]bool, origin ssa.Instruction) (*lostError, bool) {
	seen := map[string]bool{}
	work := []errState{{b: b, at: at, set: set}}

	for steps := 0; len(work) > 0; steps++ {
		if steps > 20000 {
			return nil, true
		}

		s := work[len(work)-1]
		work = work[:len(work)-1]

		k := setKey(s.b, s.at, s.set)
		if seen[k] {
			continue
		}

		seen[k] = true

		bad, next := e.block(s, origin)
		if bad != nil {
			return bad, false
		}

		work = append(work, next...)
	}

	return nil, false
}

// block follows the rest of a block.
func (e *errFlow) block(s errState, origin ssa.Instruction) (*lostError, []errState) {
	set := map[ssa.Value]bool{}
	for v := range s.set {
		set[v] = true
	}

	lost := func(why string, in ssa.Instruction) *lostError {
		return &lostError{why + " at " + e.p.at(in), s.path}
	}

	for i := s.at; i < len(s.b.Instrs); i++ {
		in := s.b.Instrs[i]

		if in == origin {
			// the operation again, with another error
			for v := range set {
				if x, ok := v.(*ssa.Extract); ok && x.Tuple == valueOf(in) || v == valueOf(in) {
					delete(set, v)
				}
			}

			if len(set) == 0 {
				return lost("it is not handled before the operation is repeated", in), nil
			}

			continue
		}

		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			// phis are done on entry
		case *ssa.Store:
			_, done := e.store(in, set)
			if done {
				return nil, nil
			}
		case *ssa.UnOp:
			delete(set, in)

			if in.Op == token.MUL {
				if set[in.X] {
					set[in] = true
				}
			} else if set[in.X] {
				set[in] = true
			}
		case *ssa.ChangeInterface:
			move(set, in, in.X)
		case *ssa.MakeInterface:
			move(set, in, in.X)
		case *ssa.ChangeType:
			move(set, in, in.X)
		case *ssa.Convert:
			move(set, in, in.X)
		case *ssa.TypeAssert:
			move(set, in, in.X)
		case *ssa.Extract:
			if _, ok := in.Tuple.(*ssa.TypeAssert); ok {
				move(set, in, in.Tuple)
			}
		case *ssa.Slice:
			move(set, in, in.X)
		case *ssa.IndexAddr:
			move(set, in, in.X)
		case *ssa.Send:
			if set[in.X] {
				return nil, nil
			}
		case *ssa.Select:
			for _, st := range in.States {
				if st.Dir == types.SendOnly && set[st.Send] {
					if !in.Blocking {
						return lost("it is only sent if somebody waits for it", in), nil
					}

					return nil, nil
				}
			}
		case *ssa.MapUpdate:
			if set[in.Value] {
				return nil, nil
			}
		case *ssa.Panic:
			return nil, nil
		case *ssa.MakeClosure:
			// what is captured is done by the closure
			for _, b := range in.Bindings {
				if set[b] {
					if _, isVar := b.(*ssa.Alloc); !isVar {
						return nil, nil
					}
				}
			}
		case *ssa.Go, *ssa.Defer:
			for _, a := range in.(ssa.CallInstruction).Common().Args {
				if set[a] && !isPtr(a.Type()) {
					return nil, nil
				}
			}
		case *ssa.Call:
			done, bad := e.call(in, set)
			if bad != "" {
				return lost(bad, in), nil
			}

			if done {
				return nil, nil
			}
		case *ssa.Return:
			for _, v := range in.Results {
				if set[v] || e.tells(v, set) {
					return nil, nil
				}
			}

			// what a deferred function leaves where it was
			for v := range set {
				switch v.(type) {
				case *ssa.FreeVar, *ssa.Parameter:
					return nil, nil
				}
			}

			return lost("the function returns without it", in), nil
		case *ssa.If:
			var out []errState

			yes, no := e.branch(in.Cond, set, 0)

			if yes {
				out = append(out, e.enter(s, s.b.Succs[0], set, in))
			}

			if no {
				out = append(out, e.enter(s, s.b.Succs[1], set, in))
			}

			return nil, out
		case *ssa.Jump:
			to := e.enter(s, s.b.Succs[0], set, in)
			if len(to.set) == 0 {
				return lost("nothing has it any more", in), nil
			}

			return nil, []errState{to}
		default:
			if v, ok := in.(ssa.Value); ok {
				delete(set, v)
			}
		}
	}

	return nil, nil
}

func move(set map[ssa.Value]bool, to, from ssa.Value) {
	delete(set, to)

	if set[from] {
		set[to] = true
	}
}

// enter goes to a successor: its phis take the values of the edge.
func (e *errFlow) enter(s errState, to *ssa.BasicBlock, set map[ssa.Value]bool, in ssa.Instruction) errState {
	edge := -1

	for i, p := range to.Preds {
		if p == s.b {
			edge = i
		}
	}

	out := map[ssa.Value]bool{}
	for v := range set {
		out[v] = true
	}

	for _, x := range to.Instrs {
		phi, ok := x.(*ssa.Phi)
		if !ok {
			break
		}

		delete(out, phi)

		if set[phi.Edges[edge]] {
			out[phi] = true
		}
	}

	path := s.path

	if _, ok := in.(*ssa.If); ok {
		path = append(append([]string(nil), path...), e.p.at(in))
	}

	return errState{b: to, set: out, path: path}
}

// store tells if a store hands the error to memory that somebody else returns.
func (e *errFlow) store(in *ssa.Store, set map[ssa.Value]bool) (lost, done bool) {
	has := set[in.Val]

	switch a := in.Addr.(type) {
	case *ssa.Alloc:
		delete(set, a)

		if has {
			set[a] = true
		}
	case *ssa.FreeVar, *ssa.Parameter:
		delete(set, a)

		if has {
			set[a] = true
		}
	case *ssa.IndexAddr:
		if !has {
			return false, false
		}

		// an element of a list of errors, or of the arguments of a call
		if base := sliceBase(a.X); base != nil {
			set[base] = true
		} else {
			set[a.X] = true
		}
	case *ssa.FieldAddr:
		if has && isErrType(deref(a.Type())) {
			e.kept[memKey(a)] = e.p.at(in)

			return false, true
		}

		return false, has
	case *ssa.Global:
		return false, has
	}

	return false, false
}

func sliceBase(v ssa.Value) ssa.Value {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.Slice:
		return sliceBase(v.X)
	}

	return nil
}

// call tells if a call passes the error on, and adds its result to the set if it
// contains the error.
func (e *errFlow) call(in *ssa.Call, set map[ssa.Value]bool) (done bool, bad string) {
	cc := in.Common()

	delete(set, in)

	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" || b.Name() == "copy" {
			for _, a := range cc.Args {
				if set[a] {
					set[in] = true

					if b.Name() == "copy" {
						set[cc.Args[0]] = true
					}
				}
			}
		}

		return false, ""
	}

	// the arguments that hold it
	held := -1

	for i, a := range cc.Args {
		if set[a] {
			held = i
		}
	}

	if cc.IsInvoke() && set[cc.Value] {
		return false, "" // a method of the error itself
	}

	g := cc.StaticCallee()
	if g != nil {
		if pkg := fnPkg(g); pkg != nil {
			switch pkg.Path() + "." + g.Name() {
			case "errors.Join":
				if held >= 0 {
					set[in] = true
				}

				return false, ""
			case "errors.Is", "errors.As", "errors.Unwrap":
				return false, ""
			case "fmt.Errorf":
				if held < 0 {
					return false, ""
				}

				if e.wraps(cc, set) {
					set[in] = true
				}

				return false, ""
			}

			if pkg.Path() == "fmt" || pkg.Path() == "log" {
				return false, ""
			}
		}
	}

	if held >= 0 {
		// variables by pointer are still there afterwards
		if _, ok := cc.Args[held].(*ssa.Alloc); ok && isPtr(cc.Args[held].Type()) && isErrType(deref(cc.Args[held].Type())) {
			return false, ""
		}

		// a repository function is given the error; if its result is an error, it has to be followed
		if res := cc.Signature().Results(); res.Len() == 1 && isErrType(res.At(0).Type()) {
			set[in] = true

			return false, ""
		}

		return true, ""
	}

	// an operation that is tried instead
	if _, _, ok := e.callSource(in); ok && e.instead(in, set) {
		return true, ""
	}

	return false, ""
}

// instead: the call is only made if the error is not nil.
func (e *errFlow) instead(in *ssa.Call, set map[ssa.Value]bool) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return false
		}

		br, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}

		for i, succ := range d.Succs {
			if !(succ == b || succ.Dominates(b)) || len(succ.Preds) != 1 {
				continue
			}

			yes, no := e.branch(br.Cond, set, 0)
			// only the branch on which it is an error leads here
			if i == 0 && yes && !no || i == 1 && no && !yes {
				return true
			}
		}
	}

	return false
}

// branch: the outcomes of a condition that are possible while there is an error.
func (e *errFlow) branch(cond ssa.Value, set map[ssa.Value]bool, depth int) (yes, no bool) {
	if depth > 8 {
		return true, true
	}

	switch v := cond.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			return constant.BoolVal(v.Value), !constant.BoolVal(v.Value)
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			yes, no = e.branch(v.X, set, depth+1)

			return no, yes
		}
	case *ssa.BinOp:
		x, y := v.X, v.Y
		if isNilConst(x) {
			x, y = y, x
		}

		if sel, ok := chosenCase(x); ok && v.Op == token.EQL {
			if at, ok := e.chosen[sel]; ok {
				if k, ok := y.(*ssa.Const); ok {
					return k.Int64() == int64(at), k.Int64() != int64(at)
				}
			}
		}

		if isNilConst(y) && (v.Op == token.EQL || v.Op == token.NEQ) {
			if set[x] && isErrType(x.Type()) {
				return v.Op == token.NEQ, v.Op == token.EQL
			}

			// a panic has taken the place of the result
			if isRecovered(x) {
				return v.Op == token.EQL, v.Op == token.NEQ
			}
		}

		// comparisons with particular errors
		if v.Op == token.EQL || v.Op == token.NEQ {
			for _, w := range [][2]ssa.Value{{v.X, v.Y}, {v.Y, v.X}} {
				if set[w[0]] && harmless(w[1]) {
					return v.Op == token.NEQ, v.Op == token.EQL
				}
			}
		}

		// lists of errors are not empty when they have one
		if n, ok := errLenOf(x); ok && set[n] {
			if k, ok := y.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
				switch v.Op {
				case token.EQL, token.LEQ:
					return false, true
				case token.NEQ, token.GTR:
					return true, false
				}
			}
		}
	case *ssa.Call:
		if g := v.Common().StaticCallee(); g != nil && fnPkg(g) != nil && fnPkg(g).Path() == "errors" && g.Name() == "Is" {
			args := v.Common().Args

			if set[args[0]] && harmless(args[1]) {
				return false, true // the end of the input is not an error
			}

			if set[args[1]] {
				return false, true // it is found in another one already
			}
		}
	}

	return true, true
}

func errLenOf(v ssa.Value) (ssa.Value, bool) {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil, false
	}

	if b, ok := call.Common().Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return call.Common().Args[0], true
	}

	return nil, false
}

// chosenCase: the value is the number of the case that a select has chosen.
func chosenCase(v ssa.Value) (*ssa.Select, bool) {
	x, ok := v.(*ssa.Extract)
	if !ok || x.Index != 0 {
		return nil, false
	}

	sel, ok := x.Tuple.(*ssa.Select)

	return sel, ok
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)

	return ok && k.IsNil()
}

func isRecovered(v ssa.Value) bool {
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}

	b, ok := call.Common().Value.(*ssa.Builtin)

	return ok && b.Name() == "recover"
}

// harmless: the end of the input and the cancellation of a read.
func harmless(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}

	g, ok := u.X.(*ssa.Global)
	if !ok || g.Pkg == nil {
		return false
	}

	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "io.EOF", "context.Canceled", "github.com/muesli/cancelreader.ErrCanceled":
		return true
	}

	return false
}

// tells: a boolean that says if there was an error.
func (e *errFlow) tells(v ssa.Value, set map[ssa.Value]bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}

	return isNilConst(b.Y) && set[b.X] || isNilConst(b.X) && set[b.Y]
}

// wraps: the error is the operand of a %w of a format.
func (e *errFlow) wraps(cc *ssa.CallCommon, set map[ssa.Value]bool) bool {
	if len(cc.Args) != 2 {
		return false
	}

	k, ok := cc.Args[0].(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.String {
		return false
	}

	// the operands
	base := sliceBase(cc.Args[1])
	if base == nil {
		return false
	}

	at := map[int]bool{}

	for _, r := range *base.Referrers() {
		a, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}

		i, ok := a.Index.(*ssa.Const)
		if !ok {
			continue
		}

		for _, s := range *a.Referrers() {
			if s, ok := s.(*ssa.Store); ok && s.Addr == a && set[s.Val] {
				at[int(i.Int64())] = true
			}
		}
	}

	format := constant.StringVal(k.Value)
	arg := 0

	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}

		i++

		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}

		if i >= len(format) || format[i] == '%' {
			continue
		}

		if format[i] == 'w' && at[arg] {
			return true
		}

		arg++
	}

	return false
}

func valueOf(in ssa.Instruction) ssa.Value {
	v, _ := in.(ssa.Value)

	return v
}
