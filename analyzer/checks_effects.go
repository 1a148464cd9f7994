package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("W02", checkW02)
	register("S04", checkS04)
}

// writesTo lists the writes of a function to memory that is not allowed.
func (e *Effects) writesTo(f *ssa.Function, allowed func(m mem) bool) []string {
	var bad []string

	s := e.sum[f]

	for m, site := range s.writes {
		if allowed(m) {
			continue
		}

		what := "memory"

		switch m.kind {
		case 'P', 'D':
			if m.idx < len(f.Params) {
				what = f.Params[m.idx].Name()
			}
		case 'G', 'H':
			what = "the package variable " + m.id.Name()
		}

		how := "is written to at "
		if site.append {
			how = "may be written to beyond its length, by appending, at "
		}

		via := ""

		for at, n := site, 0; at.via != nil && n < 6; n++ {
			via += " in " + fname(at.via)
			at = e.sum[at.via].writes[at.from]
		}

		bad = append(bad, "memory shared with "+what+" "+how+e.p.pos(site.pos)+via)
	}

	sort.Strings(bad)

	return uniqStrings(bad)
}

func checkW02(c *Check) {
	p := c.prog("linux")
	e := newEffects(p)
	buffer := p.named("", "Buffer")

	for _, f := range p.all {
		r := recvType(f)
		if r == nil || f.Object() == nil || !f.Object().Exported() || types.Identical(deref(r), buffer) {
			continue
		}

		at := -1

		for i, q := range f.Params {
			if i > 0 && isPtr(q.Type()) && types.Identical(deref(q.Type()), buffer) {
				at = i
			}
		}

		if at < 0 {
			continue
		}

		bad := e.writesTo(f, func(m mem) bool {
			// names of the solver's variables: the layouts do not depend on them (L01, L04)
			if (m.kind == 'G' || m.kind == 'H') && m.id.(*ssa.Global).Pkg == p.spkgs[p.pkg(solverDir).Pkg.Path()] {
				return true
			}

			// the buffer, and the state by pointer
			return (m.kind == 'P' || m.kind == 'D') && m.idx > 0 && m.idx < len(f.Params) && isPtr(f.Params[m.idx].Type())
		})

		c.want(len(bad) == 0, "render", fname(f), p.pos(f.Pos()), strings.Join(bad, "; "))
	}

	c.atLeast("render", 15)
}

// held are the types of the elements that a value has by value: what it refers to
// by slices, maps and pointers to optional values, not through pointers to what
// has a state, interfaces, channels and functions.
func (e *Effects) held(t types.Type) []string {
	seen := map[types.Type]bool{}
	out := map[string]bool{}

	var walk func(t types.Type)

	walk = func(t types.Type) {
		if seen[t] {
			return
		}

		seen[t] = true

		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			walk(u.Elem())
		case *types.Pointer:
			// an optional value: nothing is done to it through the pointer
			if n, ok := u.Elem().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if isPtr(n.Method(i).Signature().Recv().Type()) {
						return
					}
				}
			}

			if types.IsInterface(u.Elem()) {
				return
			}

			out[e.key(u.Elem())] = true
			walk(u.Elem())
		case *types.Slice:
			out[e.key(u.Elem())] = true
			walk(u.Elem())
		case *types.Map:
			for _, k := range e.pointees(u) {
				out[k] = true
			}

			walk(u.Key())
			walk(u.Elem())
		}
	}

	walk(t)

	return inOrder(out)
}

func checkS04(c *Check) {
	p := c.prog("linux")
	e := newEffects(p)

	for _, f := range p.all {
		o := f.Object()
		if o == nil || !o.Exported() || f.Signature.Results().Len() == 0 {
			continue
		}

		n := 0
		for _, q := range f.Params {
			if !isPtr(q.Type()) {
				n += len(e.held(q.Type()))
			}
		}

		if n == 0 {
			continue
		}

		bad := e.writesTo(f, func(m mem) bool {
			if m.kind != 'P' && m.kind != 'D' || m.idx >= len(f.Params) || isPtr(f.Params[m.idx].Type()) {
				return true
			}

			for _, k := range e.held(f.Params[m.idx].Type()) {
				if e.fits(m.typ, k) {
					return false
				}
			}

			return true
		})

		c.want(len(bad) == 0, "derive", fname(f), p.pos(f.Pos()), strings.Join(bad, "; "))
	}

	c.atLeast("derive", 100)

	// a clone has nothing in common with what it is a clone of
	for _, f := range p.all {
		r := recvType(f)
		if r == nil || f.Object() == nil || f.Name() != "Clone" || f.Signature.Results().Len() != 1 {
			continue
		}

		held := e.held(deref(r))
		bad := ""

		for _, ms := range []memSet{e.sum[f].results[0], e.sum[f].inside[0]} {
			for m := range ms {
				for _, k := range held {
					if (m.kind == 'P' || m.kind == 'D') && m.idx == 0 && e.fits(m.typ, k) {
						bad = "the clone shares memory of type " + m.typ
					}
				}
			}
		}

		c.want(bad == "", "clone", fname(f), p.pos(f.Pos()), bad)
	}
}
