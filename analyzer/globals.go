package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initials are the values that the package variables of one package have once
// it is initialized.
type initials struct {
	st   *State
	x    *Interp
	vals map[*ssa.Global]Val
}

var (
	initCache = map[string]*initials{}
	frozen    = map[*Prog]map[*ssa.Global]bool{}
)

// initialsOf interprets the initialization of a package. Variables that depend
// on anything but constants are left out.
func initialsOf(p *Prog, pkg *ssa.Package) *initials {
	// the form of values depends on the types that are sets of bits
	var names []string
	for n, on := range bvTypes {
		if on {
			names = append(names, n)
		}
	}

	sort.Strings(names)

	key := fmt.Sprintf("%p %s %s", p, pkg.Pkg.Path(), strings.Join(names, ","))
	if in, ok := initCache[key]; ok {
		return in
	}

	in := &initials{vals: map[*ssa.Global]Val{}}
	initCache[key] = in // initialization cycles between variables see nothing

	return runInit(p, pkg, in, nil)
}

// runInit interprets the initialization of a package.
func runInit(p *Prog, pkg *ssa.Package, in *initials, rangeM func(fr *Frame, st *State, in *ssa.Range, m Val)) *initials {
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return in
	}

	x := newInterp(p)
	x.noInit = true
	x.maxUnrol = 5000
	st := x.newState()

	if g, ok := pkg.Members["init$guard"].(*ssa.Global); ok {
		st.heap[x.global(g)] = &Obj{typ: types.Typ[types.Bool], kind: 'v', val: Boo{bddFalse}}
	}

	for _, k := range inOrder(pkg.Members) {
		m := pkg.Members[k]
		if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
			t := g.Type().Underlying().(*types.Pointer).Elem()
			st.heap[x.global(g)] = &Obj{typ: t, kind: 'v', val: x.zeroVal(t), name: g.String()}
		}
	}

	x.hooks.rangeM = rangeM
	x.hooks.call = func(c *CallCtx) (bool, []Outcome) {
		if c.callee != nil && c.callee.Name() == "init" && c.callee.Pkg != pkg && c.callee.Signature.Recv() == nil {
			return c.ret()
		}

		return false, nil
	}

	outs := live(x.run(fn, nil, nil, st, nil, nil, false))
	if len(outs) != 1 || outs[0].panic {
		return in
	}

	in.st, in.x = outs[0].st, x

	for _, k := range inOrder(pkg.Members) {
		m := pkg.Members[k]
		if g, ok := m.(*ssa.Global); ok {
			if o := in.st.obj(x.global(g)); o != nil && o.kind == 'v' {
				in.vals[g] = o.val
			}
		}
	}

	return in
}

// initial is the value of a variable that nothing changes after the
// initialization of its package.
func (x *Interp) initial(g *ssa.Global) Val {
	if x.noInit || g.Pkg == nil || !isRepoPath(g.Pkg.Pkg.Path()) || !frozenGlobals(x.p)[g] {
		return nil
	}

	in := initialsOf(x.p, g.Pkg)

	v, ok := in.vals[g]
	if !ok {
		return nil
	}

	// the memory that the value refers to
	for id, o := range in.st.heap {
		if _, ok := x.lazyInfo[id]; !ok {
			x.lazyInfo[id] = o
		}
	}

	for id, o := range in.x.lazyInfo {
		if _, ok := x.lazyInfo[id]; !ok {
			x.lazyInfo[id] = o
		}
	}

	return v
}

// frozenGlobals are the package variables of the repository that are only
// written during initialization.
func frozenGlobals(p *Prog) map[*ssa.Global]bool {
	if f, ok := frozen[p]; ok {
		return f
	}

	f := map[*ssa.Global]bool{}
	frozen[p] = f

	bad := map[*ssa.Global]bool{}

	for fn := range p.allFn {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}

		if !p.inRepo(fn) || root.Synthetic == "package initializer" {
			continue
		}

		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}

					if !onlyReads(in, g, map[ssa.Value]bool{}) {
						bad[g] = true
					}
				}
			}
		}
	}

	for path, pkg := range p.spkgs {
		if !isRepoPath(path) {
			continue
		}

		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				f[g] = true
			}
		}
	}

	return f
}

// onlyReads reports that an instruction, which uses v, does not write to what v
// refers to, and neither does what is derived from it.
func onlyReads(in ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) bool {
	derived := func(d ssa.Value) bool {
		if !refers(d.Type()) || seen[d] {
			return true
		}

		seen[d] = true

		for _, r := range *d.Referrers() {
			if !onlyReads(r, d, seen) {
				return false
			}
		}

		return true
	}

	switch in := in.(type) {
	case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.Extract, *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
		return derived(in.(ssa.Value))
	case *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Return:
		return true // returned values are assumed not to be written: L04 and S04
	case *ssa.MakeInterface:
		return true
	case *ssa.Store:
		return in.Addr != v
	case *ssa.MapUpdate:
		return in.Map != v
	case *ssa.Call:
		cc := in.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "print", "println":
				return true
			case "append":
				return len(cc.Args) > 0 && cc.Args[0] != v && derived(in)
			case "copy":
				return cc.Args[0] != v
			}

			return false
		}

		callee := cc.StaticCallee()
		if callee == nil || cc.IsInvoke() {
			return false
		}

		if o := callee.Origin(); o != nil && len(callee.Blocks) == 0 {
			callee = o
		}

		if callee.Pkg == nil || !isRepoPath(callee.Pkg.Pkg.Path()) {
			return len(callee.Blocks) == 0 || callee.Pkg != nil && readOnlyPkg(callee.Pkg.Pkg.Path())
		}

		for i, a := range cc.Args {
			if a != v || i >= len(callee.Params) || seen[callee.Params[i]] {
				continue
			}

			seen[callee.Params[i]] = true

			for _, r := range *callee.Params[i].Referrers() {
				if !onlyReads(r, callee.Params[i], seen) {
					return false
				}
			}
		}

		return true
	}

	return false
}

func readOnlyPkg(path string) bool {
	switch path {
	case "strings", "bytes", "unicode/utf8", "fmt", "errors", "regexp":
		return true
	}

	return false
}

// refers reports that values of a type give access to shared memory.
func refers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refers(u.Field(i).Type()) {
				return true
			}
		}

		return false
	case *types.Array:
		return refers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refers(u.At(i).Type()) {
				return true
			}
		}

		return false
	}

	return true
}
