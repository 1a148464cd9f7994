package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ai is one use of the interpreter for a check.
type ai struct {
	*Interp
	c *Check
}

func newAI(c *Check, p *Prog) *ai {
	bvTypes = map[string]bool{}
	return &ai{newInterp(p), c}
}

// exec runs a function from a state. A function without a body cannot be
// decided.
func (a *ai) exec(fn *ssa.Function, st *State, args ...Val) []Outcome {
	if len(fn.Blocks) == 0 {
		panic("no body of " + fname(fn))
	}

	outs := live(a.run(fn, args, nil, st, nil, nil, false))

	return outs
}

// recvType is the type of the receiver of a method.
func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}

	return nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}

	return t
}

// recv makes a receiver with a given content, for value and pointer methods.
func (a *ai) recv(fn *ssa.Function, st *State, v Val) (Val, ObjID) {
	t := recvType(fn)
	if isPtr(t) {
		id := st.newVar(deref(t), v, "receiver")
		return Ptr{obj: id, nil_: bddFalse}, id
	}

	return v, 0
}

// param makes an unknown argument.
func (a *ai) param(fn *ssa.Function, st *State, i int, term string) Val {
	return a.fresh(st, fn.Params[i].Type(), term)
}

// deep is a value with the pointers to local variables followed: the struct a
// pointer refers to.
func (st *State) at(v Val) Val {
	if p, ok := v.(Ptr); ok && p.obj != 0 {
		if o := st.obj(p.obj); o != nil && o.kind == 'v' {
			return st.x.walk(st, o.val, o.typ, splitPath(p.path))
		}
	}

	return v
}

// leaf is a field that is not a struct itself.
type leaf struct {
	path []int
	name string
	typ  types.Type
}

func (l leaf) String() string { return l.name }

// leaves lists the fields of a struct type, nested structs included.
func leaves(t types.Type) []leaf {
	var out []leaf

	var rec func(t types.Type, path []int, name string)
	rec = func(t types.Type, path []int, name string) {
		if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 && (isRepoType(t) || len(path) == 0) {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				n := f.Name()

				if name != "" {
					n = name + "." + n
				}

				rec(f.Type(), append(path[:len(path):len(path)], i), n)
			}

			return
		}

		out = append(out, leaf{path, name, t})
	}
	rec(t, nil, "")

	return out
}

func isRepoType(t types.Type) bool {
	switch t := t.(type) {
	case *types.Named:
		return t.Obj().Pkg() != nil && isRepoPath(t.Obj().Pkg().Path())
	case *types.Alias:
		return isRepoType(types.Unalias(t))
	case *types.Struct:
		return true
	}

	return false
}

func (st *State) leafOf(v Val, t types.Type, l leaf) Val { return st.x.walk(st, v, t, l.path) }

// same decides that two values are equal in a state.
func (st *State) same(a, b Val) bool {
	if valEq(a, b) {
		return true
	}

	switch x := a.(type) {
	case Num:
		if y, ok := b.(Num); ok {
			return st.provesEQ(x.l.sub(y.l))
		}
	case Boo:
		if y, ok := b.(Boo); ok {
			return st.decide(bIff(x.b, y.b)) == 1
		}
	case BV:
		if y, ok := b.(BV); ok && len(x.bits) == len(y.bits) {
			for i := range x.bits {
				if x.bits[i] != y.bits[i] && st.decide(bIff(x.bits[i], y.bits[i])) != 1 {
					return false
				}
			}

			return true
		}
	case Tup:
		if y, ok := b.(Tup); ok && len(x.fs) == len(y.fs) {
			for i := range x.fs {
				if !st.same(x.fs[i], y.fs[i]) {
					return false
				}
			}

			return true
		}
	case Slc:
		if y, ok := b.(Slc); ok {
			xn, yn := st.decide(x.nil_), st.decide(y.nil_)
			if xn == 1 && yn == 1 {
				return true
			}

			return x.obj == y.obj && st.provesEQ(x.len.sub(y.len)) && st.provesEQ(x.off.sub(y.off))
		}
	case Ifc:
		if y, ok := b.(Ifc); ok {
			xn, yn := st.decide(x.nil_), st.decide(y.nil_)
			if xn == 1 && yn == 1 {
				return true
			}

			if xn != yn && (xn == 1 || yn == 1) {
				return false
			}

			if x.typ != nil && y.typ != nil {
				return types.Identical(x.typ, y.typ) && st.same(x.val, y.val) && xn == yn
			}

			return x.typ == nil && y.typ == nil && x.term == y.term && st.decide(bIff(x.nil_, y.nil_)) == 1
		}
	case Ptr:
		if y, ok := b.(Ptr); ok {
			xn, yn := st.decide(x.nil_), st.decide(y.nil_)
			if xn == 1 && yn == 1 {
				return true
			}

			return x.obj == y.obj && x.path == y.path && st.decide(bIff(x.nil_, y.nil_)) == 1 &&
				(x.idx == nil && y.idx == nil || x.idx != nil && y.idx != nil && st.provesEQ(x.idx.sub(*y.idx)))
		}
	case Fun:
		if y, ok := b.(Fun); ok {
			return x.fn == y.fn && x.term == y.term && len(x.binds) == 0 && len(y.binds) == 0 && st.decide(bIff(x.nil_, y.nil_)) == 1
		}
	case Str:
		if y, ok := b.(Str); ok {
			return x.key() == y.key()
		}
	case Flt:
		if y, ok := b.(Flt); ok {
			return x.term == y.term
		}
	}

	return false
}

// split gives the states in which a condition is decided.
func (st *State) split(b *bdd, do func(st *State, v bool)) {
	switch st.decide(b) {
	case 1:
		do(st, true)
	case 0:
		do(st, false)
	default:
		t := st.fork()
		if t.assume(b) {
			do(t, true)
		}

		f := st.fork()
		if f.assume(bNot(b)) {
			do(f, false)
		}
	}
}

// exportedMethods lists the exported methods with bodies declared on a type or
// its pointer, sorted.
func (p *Prog) exportedMethods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function

	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if !m.Exported() {
			continue
		}

		if f := p.prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}

	sort.Slice(out, func(i, k int) bool { return out[i].Name() < out[k].Name() })

	return out
}

// noteUndecided fails the check when the interpreter lost track of something
// that matters.
func (a *ai) notesFail(rule string) {
	var ns []string
	for n := range a.notes {
		ns = append(ns, n)
	}

	sort.Strings(ns)

	for _, n := range ns {
		a.c.fail(rule, n, "-", "the interpreter could not follow: "+n)
	}
}

func facts(st *State) string {
	var p []string
	for _, c := range st.cons {
		p = append(p, c.String()+">=0")
	}

	return fmt.Sprintf("facts %s; %s", st.facts, strings.Join(p, ", "))
}

// bounds makes every index and slice expression of the repository an
// obligation: it is within the bounds on every path.
func (a *ai) bounds(rule string) {
	at := func(fr *Frame, st *State, in ssa.Instruction, ok *bdd, why string) {
		if a.quiet > 0 || !a.p.inRepo(fr.fn) {
			return
		}

		good := st.infeasible() || st.holds(ok)
		a.c.want(good, rule, fname(fr.fn)+" "+a.p.pos(instrPos(in)), a.p.pos(instrPos(in)), why, fr.path(a.p)...)
	}

	a.hooks.index = func(fr *Frame, st *State, in ssa.Instruction, i, n Lin) {
		at(fr, st, in, bAnd(bGE(i), bGE(n.sub(i).addConst(-1))), "the index "+i.String()+" may be outside of "+n.String())
	}

	a.hooks.slice = func(fr *Frame, st *State, in *ssa.Slice, lo, hi, mx, limit Lin) {
		at(fr, st, in, bAnd(bAnd(bGE(lo), bGE(hi.sub(lo))), bAnd(bGE(mx.sub(hi)), bGE(limit.sub(mx)))), "the range "+lo.String()+" to "+hi.String()+" may be outside of "+limit.String())
	}
}
