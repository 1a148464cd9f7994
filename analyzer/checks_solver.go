package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L04", checkL04)
}

const solverDir = "internal/casso"

func checkL04(c *Check) {
	p := c.prog("linux")
	checkVariables(c, p)
	checkSymbols(c, p)
}

// checkVariables decides that each new variable has a number of its own: the
// one it draws from a counter that only ever advances.
func checkVariables(c *Check, p *Prog) {
	vt := p.named(solverDir, "Variable")

	var makers []*ssa.Function

	for _, m := range p.spkgs[p.pkg(solverDir).Pkg.Path()].Members {
		fn, ok := m.(*ssa.Function)
		if ok && len(fn.Params) == 0 && fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), vt) {
			makers = append(makers, fn)
		}
	}

	if len(makers) == 0 {
		anchorf("no function makes variables")
	}

	sort.Slice(makers, func(i, j int) bool { return fname(makers[i]) < fname(makers[j]) })

	counters := map[*ssa.Global]string{} // and where they are drawn from
	offsets := map[string]bool{}

	for _, fn := range makers {
		a := newAI(c, p)
		a.noInit = true

		var bad []string

		a.hooks.call = func(cc *CallCtx) (bool, []Outcome) {
			name := cc.name
			if !strings.HasPrefix(name, "sync/atomic.") {
				return false, nil
			}

			op := name[strings.LastIndexByte(name, '.')+1:]
			if !strings.HasPrefix(op, "Add") {
				bad = append(bad, op+" does not draw a number of its own at "+cc.pos())
				return false, nil
			}

			d, ok := numOf(cc.args[1]).isConst()
			if !ok || d < 1 {
				bad = append(bad, "the counter does not advance at "+cc.pos())
			}

			// 2^62 variables are never made
			n := freshName("counter")
			cc.st.assume(bGE(linS(symOf(n))))
			cc.st.assume(bGE(linC(1 << 62).sub(linS(symOf(n)))))
			cc.st.gvAdd("drawn", Num{linS(symOf(n))})

			return true, []Outcome{{st: cc.st, vals: []Val{Num{linS(symOf(n)).addConst(d)}}}}
		}

		outs := a.exec(fn, a.newState())
		if len(outs) == 0 {
			bad = append(bad, "it does not return")
		}

		for _, o := range outs {
			drawn := o.st.gvList("drawn")
			if len(o.vals) != 1 || len(drawn) == 0 {
				bad = append(bad, "its result is not drawn from an atomic counter")
				continue
			}

			r := numOf(o.vals[0]).sub(numOf(drawn[0]))
			if k, ok := r.isConst(); !ok {
				bad = append(bad, "its result is not the number drawn")
			} else {
				offsets[fmt.Sprint(k)] = true
			}
		}

		if len(offsets) > 1 {
			bad = append(bad, "results drawn with different offsets may be the same")
		}

		c.want(len(bad) == 0, "variable", fname(fn), p.pos(fn.Pos()), strings.Join(bad, "; "))

		// the counters it uses
		newCalls(p).reach(fn, func(f *ssa.Function, _ []*ssa.Function) bool {
			eachInstr(f, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && isRepoPath(g.Pkg.Pkg.Path()) {
						counters[g] = fname(fn)
					}
				}
			})

			return true
		})
	}

	c.want(len(counters) == 1, "counter", "counter of "+vt.Obj().Name(), "-", fmt.Sprintf("variables are drawn from %d package variables instead of one", len(counters)))

	// nothing else touches the counter, nothing else makes variables
	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok || counters[g] == "" {
					continue
				}

				good := false

				switch in := in.(type) {
				case *ssa.Store:
					good = in.Addr == ssa.Value(g) && f.Synthetic != "" && f.Name() == "init"
				case *ssa.UnOp:
					good = f.Synthetic != "" && f.Name() == "init"
				case ssa.CallInstruction:
					if n := in.Common().StaticCallee(); n != nil && n.Pkg != nil && n.Pkg.Pkg.Path() == "sync/atomic" {
						switch {
						case strings.HasPrefix(n.Name(), "Load"):
							good = true
						case strings.HasPrefix(n.Name(), "Add"):
							k, ok := in.Common().Args[1].(*ssa.Const)
							good = ok && constant.Sign(k.Value) > 0
						}
					}
				}

				c.want(good, "counter", g.Name()+" in "+fname(f), p.pos(instrPos(in)), "the counter of the variables is used other than by advancing it atomically")
			}

			// conversions
			var v, x ssa.Value

			switch in := in.(type) {
			case *ssa.Convert:
				v, x = in, in.X
			case *ssa.ChangeType:
				v, x = in, in.X
			}

			if v != nil && types.Identical(v.Type(), vt) && !types.Identical(x.Type(), vt) {
				made := false
				for _, m := range makers {
					made = made || m == f
				}

				if !made {
					cg := newCalls(p)
					for _, m := range makers {
						cg.reach(m, func(g *ssa.Function, _ []*ssa.Function) bool {
							made = made || g == f
							return true
						})
					}
				}

				c.want(made, "conversion", "conversion in "+fname(f), p.pos(instrPos(in)), "a number that was not drawn from the counter becomes a variable")
			}
		})
	}

	c.atLeast("variable", 1)
	c.atLeast("counter", 2)
}

// gvAdd appends to a list kept with a state.
func (st *State) gvAdd(name string, v Val) {
	st.setGV(name, Tup{append(append([]Val(nil), st.gvList(name)...), v)})
}

func (st *State) gvList(name string) []Val {
	t, _ := st.gv[name].(Tup)
	return t.fs
}

// hasType reports that values of a type contain or lead to those of another.
func hasType(t, what types.Type, seen map[types.Type]bool) bool {
	if types.Identical(t, what) {
		return true
	}

	if seen[t] {
		return false
	}

	seen[t] = true

	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasType(u.Field(i).Type(), what, seen) {
				return true
			}
		}
	case *types.Map:
		return hasType(u.Key(), what, seen) || hasType(u.Elem(), what, seen)
	case *types.Slice:
		return hasType(u.Elem(), what, seen)
	case *types.Array:
		return hasType(u.Elem(), what, seen)
	case *types.Pointer:
		return hasType(u.Elem(), what, seen)
	}

	return false
}

// symbolsOf finds the type of the solver's symbols: the key of its tables that
// is made of a number and a kind.
func symbolsOf(p *Prog, solver *types.Named) (types.Type, int) {
	uniq := uniqueField(p)
	s := solver.Underlying().(*types.Struct)

	for i := 0; i < s.NumFields(); i++ {
		if m, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			if id, _, _ := uniq(m.Key()); id >= 0 {
				return m.Key(), id
			}
		}
	}

	anchorf("no table of the solver is keyed by symbols")

	return nil, 0
}

// checkSymbols decides that the numbers of new symbols only ever increase: each
// is at least as great as what the solver's counter was when the function was
// entered and all numbers issued since, and the counter is beyond it at the end.
func checkSymbols(c *Check, p *Prog) {
	solver := p.named(solverDir, "Solver")
	ss := solver.Underlying().(*types.Struct)
	sym, id := symbolsOf(p, solver)
	cg := newCalls(p)

	issues := map[*ssa.Function]bool{} // makes symbols
	zeros := int64(0)                  // the greatest constant number of a symbol

	var fields []int

	writes := map[int]map[*ssa.Function]bool{}

	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}

			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}

			switch t := deref(fa.X.Type()); {
			case types.Identical(t, sym) && fa.Field == id:
				if k, ok := s.Val.(*ssa.Const); ok {
					if v, ok := constant.Int64Val(k.Value); ok {
						zeros = max(zeros, v)
					}

					return
				}

				issues[f] = true
			case types.Identical(t, solver):
				if b, ok := ss.Field(fa.Field).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					if writes[fa.Field] == nil {
						writes[fa.Field] = map[*ssa.Function]bool{}
						fields = append(fields, fa.Field)
					}

					writes[fa.Field][f] = true
				}
			}
		})
	}

	if len(fields) == 0 {
		anchorf("the solver has no counter")
	}

	c.want(len(issues) > 0, "symbols", "symbols of the solver", "-", "no function makes symbols with a number")

	// the counter is the field for which all is well; otherwise what fails for
	// the first is reported
	var first func()

	sort.Ints(fields)

	for _, f := range fields {
		s := &symbols{c: c, p: p, cg: cg, solver: solver, sym: sym, id: id, field: f, issues: issues, writes: writes[f], zeros: zeros}

		report, good := s.decide()
		if good {
			report()

			first = nil

			break
		}

		if first == nil {
			first = report
		}
	}

	if first != nil {
		first()
	}

	c.atLeast("symbols", 4)

	vt := p.named(solverDir, "Variable")

	for _, f := range p.all {
		if r := recvType(f); r == nil || !types.Identical(deref(r), solver) || f.Signature.Results().Len() != 1 ||
			!types.Identical(f.Signature.Results().At(0).Type(), sym) {
			continue
		}

		for i, q := range f.Params {
			if i > 0 && types.Identical(q.Type(), vt) {
				bad := variableSymbol(c, p, f, i, solver, sym, vt)
				c.want(len(bad) == 0, "of-variable", fname(f), p.pos(f.Pos()), strings.Join(bad, "; "))
			}
		}
	}
}

// variableSymbol decides that a variable keeps the symbol it was given, and that
// the symbol leads back to it.
func variableSymbol(c *Check, p *Prog, f *ssa.Function, at int, solver *types.Named, sym types.Type, vt types.Type) []string {
	a := newAI(c, p)
	a.fmaps = true
	st := a.newState()

	var args []Val

	for i, q := range f.Params {
		v := a.param(f, st, i, "arg "+q.Name())
		if ptr, ok := v.(Ptr); ok {
			ptr.nil_ = bddFalse
			v = ptr
		}

		args = append(args, v)
	}

	var bad []string

	ss := solver.Underlying().(*types.Struct)

	for _, o := range a.exec(f, st, args...) {
		if o.panic {
			continue
		}

		t, ok := o.st.at(args[0]).(Tup)
		if !ok {
			return []string{"the solver cannot be followed"}
		}

		known := false // the variable had a symbol before

		for i := 0; i < ss.NumFields(); i++ {
			m, ok := ss.Field(i).Type().Underlying().(*types.Map)
			if !ok || !types.Identical(m.Key(), vt) || !hasType(m.Elem(), sym, map[types.Type]bool{}) {
				continue
			}

			for _, l := range leaves2(m.Elem(), sym) {
				r, _ := t.fs[i].(Ref)
				ob := o.st.obj(r.obj)

				if ob == nil {
					return []string{"the table " + ss.Field(i).Name() + " cannot be followed"}
				}

				var v Val

				for k := len(ob.keys) - 1; k >= 0 && v == nil; k-- {
					if o.st.decide(a.keyEq(o.st, ob.keys[k], args[at], vt)) == 1 {
						v = ob.elems[k]
					}
				}

				term := "map:" + ss0(a, st, args[0], i) + "[" + valKey(args[at]) + "]"
				if o.st.decide(bddVar(atomOf("has "+term))) == 1 {
					known = true
				}

				if v == nil && known {
					v = a.fresh(o.st, m.Elem(), term)
				}

				if v == nil || !o.st.same(a.walk(o.st, v, m.Elem(), l), o.vals[0]) {
					bad = append(bad, "the table "+ss.Field(i).Name()+" does not keep the symbol of the variable")
				}

				if known && !o.st.same(a.walk(o.st, a.fresh(o.st, m.Elem(), term), m.Elem(), l), o.vals[0]) {
					bad = append(bad, "a variable that has a symbol is given another one")
				}
			}

		}

		for i := 0; i < ss.NumFields(); i++ {
			m, ok := ss.Field(i).Type().Underlying().(*types.Map)
			if !ok || !types.Identical(m.Key(), sym) || !types.Identical(m.Elem(), vt) || known {
				continue
			}

			r, _ := t.fs[i].(Ref)
			ob := o.st.obj(r.obj)
			found := false

			for k := 0; ob != nil && k < len(ob.keys); k++ {
				if o.st.same(ob.keys[k], o.vals[0]) && o.st.same(ob.elems[k], args[at]) {
					found = true
				}
			}

			if !found {
				bad = append(bad, "the table "+ss.Field(i).Name()+" does not lead back to the variable")
			}
		}
	}

	sort.Strings(bad)

	return uniqStrings(bad)
}

// ss0 is what the table in a field of the solver is called before the function.
func ss0(a *ai, st *State, root Val, i int) string {
	if t, ok := st.at(root).(Tup); ok {
		if r, ok := t.fs[i].(Ref); ok {
			if o := st.obj(r.obj); o != nil {
				return o.term
			}

			if o := a.lazyInfo[r.obj]; o != nil {
				return o.term
			}
		}
	}

	return "?"
}

// leaves2 are the paths to the fields of a given type.
func leaves2(t, what types.Type) [][]int {
	if types.Identical(t, what) {
		return [][]int{nil}
	}

	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}

	var out [][]int

	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), what) {
			out = append(out, []int{i})
		}
	}

	return out
}

type symbols struct {
	c              *Check
	p              *Prog
	cg             *Calls
	solver         *types.Named
	sym            types.Type
	id, field      int
	issues, writes map[*ssa.Function]bool
	zeros          int64
}

func (s *symbols) decide() (func(), bool) {
	type result struct{ construct, pos, msg string }

	var rs []result

	good := true
	add := func(f *ssa.Function, bad []string) {
		sort.Strings(bad)
		rs = append(rs, result{fname(f), s.p.pos(f.Pos()), strings.Join(uniqStrings(bad), "; ")})
		good = good && len(bad) == 0
	}

	// functions that issue numbers, themselves or by what they call
	cone := map[*ssa.Function]bool{}

	for _, f := range s.p.all {
		s.cg.reach(f, func(g *ssa.Function, _ []*ssa.Function) bool {
			if s.issues[g] || s.writes[g] {
				cone[f] = true
			}

			return !cone[f]
		})
	}

	called := map[*ssa.Function]bool{}

	for f := range cone {
		eachInstr(f, func(in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := call.Common().StaticCallee(); g != nil && cone[g] && g != f {
					called[g] = true
				}
			}
		})
	}

	for _, f := range s.p.all {
		if !cone[f] || f.Pkg != s.p.spkgs[s.p.pkg(solverDir).Pkg.Path()] {
			continue
		}

		if called[f] && (f.Object() == nil || !f.Object().Exported()) {
			continue
		}

		add(f, s.unit(f, cone))
	}

	return func() {
		for _, r := range rs {
			s.c.want(r.msg == "", "symbols", r.construct, r.pos, r.msg)
		}
	}, good
}

func uniqStrings(xs []string) []string {
	var out []string

	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}

	return out
}

// unit follows a function that issues numbers, with all it calls to do so.
func (s *symbols) unit(f *ssa.Function, cone map[*ssa.Function]bool) []string {
	a := newAI(s.c, s.p)
	a.maxNodes, a.coarse, a.fmaps = 4, true, true

	var bad []string

	st := a.newState()

	var args []Val

	var root Ptr

	for i, q := range f.Params {
		v := a.param(f, st, i, "arg "+q.Name())
		if ptr, ok := v.(Ptr); ok {
			ptr.nil_ = bddFalse
			v = ptr

			if types.Identical(deref(q.Type()), s.solver) {
				root = ptr
			}
		}

		args = append(args, v)
	}

	counter := func(st *State) (Lin, bool) {
		if root.obj == 0 {
			return Lin{}, false
		}

		t, ok := st.at(root).(Tup)
		if !ok {
			return Lin{}, false
		}

		n, ok := t.fs[s.field].(Num)

		return n.l, ok
	}

	if n, ok := counter(st); ok {
		st.setGV("issued", Num{n})
		st.assume(bGE(n.addConst(-s.zeros - 1)))
	}

	a.hooks.store = func(fr *Frame, st *State, in ssa.Instruction, q Ptr, v Val) {
		sto, ok := in.(*ssa.Store)
		if !ok {
			return
		}

		fa, ok := sto.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}

		t := deref(fa.X.Type())
		if !types.Identical(t, s.sym) || fa.Field != s.id {
			return
		}

		if _, ok := sto.Val.(*ssa.Const); ok {
			return
		}

		hi, ok := st.gv["issued"].(Num)
		n, ok2 := v.(Num)

		if a.quiet == 0 && (!ok || !ok2 || !st.proves(n.l.sub(hi.l))) {
			bad = append(bad, "the number of the symbol made at "+s.p.pos(instrPos(in))+" may have been issued before")
		}

		if ok2 {
			st.setGV("issued", Num{n.l.addConst(1)})
		}
	}

	a.hooks.call = func(cc *CallCtx) (bool, []Outcome) {
		if cc.callee == nil || !s.p.inRepo(cc.callee) || cone[cc.callee] || straight(cc.callee) {
			return false, nil
		}

		var vals []Val
		for i := 0; i < cc.sig.Results().Len(); i++ {
			vals = append(vals, a.fresh(cc.st, cc.sig.Results().At(i).Type(), freshName("result")))
		}

		return cc.ret(vals...)
	}

	entry := st.fork()
	outs := a.exec(f, st, args...)

	for _, o := range outs {
		if o.panic {
			continue
		}

		if root.obj == 0 {
			bad = append(bad, s.made(a, o)...)
			continue
		}

		n, ok := counter(o.st)
		if !ok {
			bad = append(bad, "the counter of the solver cannot be followed")
			continue
		}

		if k, ok := n.isConst(); ok {
			// starting anew
			if k <= s.zeros {
				bad = append(bad, fmt.Sprintf("the numbers start at %d, which invalid symbols have", k))
			}

			bad = append(bad, s.cleared(a, o.st, o.st.at(root).(Tup))...)

			continue
		}

		hi, _ := o.st.gv["issued"].(Num)
		if !o.st.proves(n.sub(hi.l)) {
			bad = append(bad, "the counter does not get beyond the numbers issued")
		}

		if n0, ok := counter(entry); !ok || !o.st.proves(n.sub(n0)) {
			bad = append(bad, "the counter goes back")
		}
	}

	if len(outs) == 0 {
		bad = append(bad, "it does not return")
	}

	return bad
}

// straight reports that a function has no loops and calls nothing but builtins.
func straight(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if inCycle(b) {
			return false
		}

		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}

	return len(f.Blocks) > 0
}

// made decides that a new solver starts with a number no symbol has and without
// symbols.
func (s *symbols) made(a *ai, o Outcome) []string {
	var bad []string

	for i, v := range o.vals {
		t := types.Type(nil)
		if i < len(o.vals) {
			t = s.solver
		}

		tup, ok := o.st.at(v).(Tup)
		if !ok || t == nil || len(tup.fs) != s.solver.Underlying().(*types.Struct).NumFields() {
			continue
		}

		n, ok := tup.fs[s.field].(Num)
		if !ok {
			return []string{"the counter of the new solver is not known"}
		}

		if !o.st.proves(n.l.addConst(-s.zeros - 1)) {
			bad = append(bad, "the numbers start with one that invalid symbols have")
		}

		return append(bad, s.cleared(a, o.st, tup)...)
	}

	return []string{"it issues numbers without a solver"}
}

// cleared decides that no table has any symbols.
func (s *symbols) cleared(a *ai, st *State, t Tup) []string {
	var bad []string

	ss := s.solver.Underlying().(*types.Struct)

	var empty func(v Val, vt types.Type) bool
	empty = func(v Val, vt types.Type) bool {
		if !hasType(vt, s.sym, map[types.Type]bool{}) {
			return true
		}

		switch v := v.(type) {
		case Ref:
			o := st.obj(v.obj)
			return st.decide(v.nil_) == 1 || o != nil && o.conc && len(o.keys) == 0
		case Slc:
			return st.provesEQ(v.len)
		case Ptr:
			return st.decide(v.nil_) == 1
		case Tup:
			for i, f := range v.fs {
				if !empty(f, vt.Underlying().(*types.Struct).Field(i).Type()) {
					return false
				}
			}

			return true
		}

		return false
	}

	for i, f := range t.fs {
		if !empty(f, ss.Field(i).Type()) {
			bad = append(bad, "the numbers start anew while "+ss.Field(i).Name()+" keeps symbols")
		}
	}

	return bad
}
