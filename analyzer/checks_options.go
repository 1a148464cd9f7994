package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W03", checkW03)
}

// checkW03: the value of every option of what can be rendered is read by the
// functions that rendering calls, and what is read flows into what is drawn or
// decides about it.
func checkW03(c *Check) {
	p := c.prog("linux")
	calls := newCalls(p)
	buffer := p.named("", "Buffer")
	rect := p.named("", "Rect")

	renders := map[*types.Named][]*ssa.Function{}
	holders := map[*types.Named][]*types.Named{} // direct holders of a type
	types_ := map[*types.Named]bool{}

	var all []*types.Named

	for path, pkg := range p.spkgs {
		if !isRepoPath(path) || !strings.Contains(path, "/widget/") {
			continue
		}

		scope := pkg.Pkg.Scope()

		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || !tn.Exported() {
				continue
			}

			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}

			if _, ok := named.Underlying().(*types.Struct); ok {
				all = append(all, named)
				types_[named] = true
			}
		}
	}

	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })

	states := map[*types.Named]bool{}

	for _, t := range all {
		for _, f := range p.exportedMethods(t) {
			if f.Name() != "Render" && f.Name() != "RenderStateful" {
				continue
			}

			takes := false

			for _, q := range f.Params[1:] {
				if isPtr(q.Type()) && types.Identical(deref(q.Type()), buffer) {
					takes = true
				} else if n, ok := deref(q.Type()).(*types.Named); ok && isPtr(q.Type()) && types_[n] {
					states[n] = true
				}
			}

			if takes {
				renders[t] = append(renders[t], f)
			}
		}
	}

	for _, t := range all {
		st := t.Underlying().(*types.Struct)

		for i := 0; i < st.NumFields(); i++ {
			for _, h := range namedIn(st.Field(i).Type(), types_) {
				holders[h] = append(holders[h], t)
			}
		}
	}

	// the functions that render values of a type
	var entriesOf func(t *types.Named, seen map[*types.Named]bool) []*ssa.Function

	entriesOf = func(t *types.Named, seen map[*types.Named]bool) []*ssa.Function {
		if seen[t] || states[t] {
			return nil
		}

		seen[t] = true

		if len(renders[t]) > 0 {
			return renders[t]
		}

		var out []*ssa.Function

		for _, h := range holders[t] {
			out = append(out, entriesOf(h, seen)...)
		}

		return out
	}

	for _, t := range all {
		entries := entriesOf(t, map[*types.Named]bool{})
		if len(entries) == 0 {
			continue
		}

		inner, lays := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}

		for _, f := range p.exportedMethods(t) {
			if s := f.Signature; s.Params().Len() == 1 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), rect) &&
				types.Identical(s.Results().At(0).Type(), rect) {
				lays[f] = true

				calls.reach(f, func(f *ssa.Function, _ []*ssa.Function) bool {
					inner[f] = true

					return true
				})
			}
		}

		opts := optionsOf(p, t)
		st := t.Underlying().(*types.Struct)

		for _, entry := range entries {
			scope := map[*ssa.Function]bool{}

			calls.reach(entry, func(f *ssa.Function, _ []*ssa.Function) bool {
				scope[f] = true

				return true
			})

			for i := 0; i < st.NumFields(); i++ {
				if !opts[i] {
					continue
				}

				what := t.Obj().Pkg().Name() + "." + t.Obj().Name() + "." + st.Field(i).Name() + " in " + fname(entry)
				reads, uses := optionUses(p, calls, scope, nil, t, i)

				if reads == 0 && len(inner) > 0 {
					// what an option leaves for the content
					reads, uses = optionUses(p, calls, inner, lays, t, i)
				}

				switch {
				case reads == 0:
					c.fail("option is read", what, p.pos(entry.Pos()), "no function called by rendering reads it")
				case !uses:
					c.fail("option is used", what, p.pos(entry.Pos()), "its value is read, but decides nothing and reaches nothing that is drawn")
				default:
					c.ok("option is read", what, p.pos(entry.Pos()))
				}
			}
		}
	}

	c.note("widget types", len(renders))
	c.atLeast("option is read", 60)
	c.assume("an option that is read and flows into a decision or into what is drawn influences the result")
}

// namedIn are the types of the set that a value of type t contains.
func namedIn(t types.Type, set map[*types.Named]bool) []*types.Named {
	switch u := types.Unalias(t).(type) {
	case *types.Named:
		if set[u] {
			return []*types.Named{u}
		}

		if s, ok := u.Underlying().(*types.Slice); ok {
			return namedIn(s.Elem(), set)
		}
	case *types.Pointer:
		return namedIn(u.Elem(), set)
	case *types.Slice:
		return namedIn(u.Elem(), set)
	case *types.Array:
		return namedIn(u.Elem(), set)
	case *types.Map:
		return namedIn(u.Elem(), set)
	}

	return nil
}

// optionsOf are the fields that users can set: exported ones, those that an
// exported method sets, and those that an exported function sets from its
// arguments.
func optionsOf(p *Prog, t *types.Named) map[int]bool {
	out := map[int]bool{}
	st := t.Underlying().(*types.Struct)

	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			out[i] = true
		}
	}

	for _, f := range p.all {
		if f.Object() == nil || !f.Object().Exported() || fnPkg(f) != t.Obj().Pkg() {
			continue
		}

		r := recvType(f)
		if r != nil && (!types.Identical(deref(r), t) || strings.HasPrefix(f.Name(), "Render")) {
			continue
		}

		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}

			a, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(a.X.Type()), t) {
				return
			}

			if r != nil || fromParam(s.Val, map[ssa.Value]bool{}) {
				out[a.Field] = true
			}
		})
	}

	return out
}

// fromParam: the value is computed from a parameter of its function.
func fromParam(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}

	seen[v] = true

	switch v := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v && fromParam(s.Val, seen) {
				return true
			}
		}
	}

	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}

	for _, op := range in.Operands(nil) {
		if *op != nil && fromParam(*op, seen) {
			return true
		}
	}

	return false
}

// optionUses counts the reads of a field in the functions of the scope and tells
// if what is read decides a branch, reaches a buffer or a cell, or is returned by
// one of the functions of results.
func optionUses(p *Prog, calls *Calls, scope, results map[*ssa.Function]bool, t *types.Named, field int) (int, bool) {
	reads := 0
	used := false
	seen := map[ssa.Value]bool{}
	keys := map[string]bool{}

	var work []ssa.Value

	add := func(v ssa.Value) {
		if v != nil && !seen[v] {
			seen[v] = true
			work = append(work, v)
		}
	}

	// what was stored in memory of a kind may be loaded from it anywhere
	addKey := func(k string) {
		if k == "" || keys[k] {
			return
		}

		keys[k] = true

		for f := range scope {
			eachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if memKey(in) == k {
						add(in)
					}
				case *ssa.Field:
					if fieldKey(in.X.Type(), in.Field) == k {
						add(in)
					}
				case *ssa.IndexAddr:
					if memKey(in) == k {
						add(in)
					}
				case *ssa.Lookup:
					if m, ok := in.X.Type().Underlying().(*types.Map); ok && "elem:"+m.Elem().String() == k {
						add(in)
					}
				}
			})
		}
	}

	for f := range scope {
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Field:
				if in.Field == field && types.Identical(in.X.Type(), t) && len(*in.Referrers()) > 0 {
					reads++

					add(in)
				}
			case *ssa.FieldAddr:
				if in.Field != field || !types.Identical(deref(in.X.Type()), t) {
					return
				}

				for _, r := range *in.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == in {
						continue
					}

					if u, ok := r.(*ssa.UnOp); ok && len(*u.Referrers()) == 0 {
						continue
					}

					reads++

					add(in)

					break
				}
			}
		})
	}

	for len(work) > 0 && !used {
		v := work[len(work)-1]
		work = work[:len(work)-1]

		refs := v.Referrers()
		if refs == nil {
			continue
		}

		for _, r := range *refs {
			if !scope[r.Parent()] {
				continue
			}

			switch r := r.(type) {
			case *ssa.If:
				used = true
			case *ssa.Store:
				if r.Val != v {
					continue
				}

				if base := allocBase(r.Addr); base != nil {
					add(base)
				}

				if a, ok := r.Addr.(*ssa.FieldAddr); ok {
					// a variable of this function, or memory of this kind
					if base := allocBase(a.X); base != nil {
						add(base)
					}
				}

				if k := memKey(r.Addr); k != "" {
					addKey(k)
				}
			case *ssa.MapUpdate:
				addKey("elem:" + r.Map.Type().Underlying().(*types.Map).Elem().String())
			case *ssa.Return:
				if results[r.Parent()] {
					used = true
				}

				for _, s := range calls.sites[r.Parent()] {
					if val := s.call.Value(); val != nil && s.kind == "call" && scope[s.call.Parent()] {
						add(val)
					}
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)

				for i, b := range r.Bindings {
					if b == v {
						add(fn.FreeVars[i])
					}
				}

				add(r)
			case ssa.CallInstruction:
				cc := r.Common()

				if val := r.Value(); val != nil {
					add(val)
				}

				for _, g := range calls.callees(r) {
					if rt := recvType(g); rt != nil && drawsOn(deref(rt)) {
						used = true
					}

					args := cc.Args
					if cc.IsInvoke() {
						args = append([]ssa.Value{cc.Value}, args...)
					}

					if !p.inRepo(g) || len(args) != len(g.Params) {
						continue
					}

					for i, a := range args {
						if a == v {
							add(g.Params[i])
						}
					}
				}
			case ssa.Value:
				add(r)
			}
		}
	}

	return reads, used
}

// drawsOn: the type is what is drawn on.
func drawsOn(t types.Type) bool {
	n, ok := t.(*types.Named)

	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath && (n.Obj().Name() == "Buffer" || n.Obj().Name() == "Cell")
}
