package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Calls is the call graph and the flow-insensitive value flow of the
// repository's functions.
type Calls struct {
	p        *Prog
	addrOf   map[string][]*ssa.Function // address-taken functions by signature
	methods  map[string][]*ssa.Function // concrete methods by name, for invokes
	sites    map[*ssa.Function][]site   // where a function may be called
	stores   map[string][]ssa.Value     // values stored, by memory key
	closures map[*ssa.Function][]*ssa.MakeClosure
	allocSt  map[ssa.Value][]ssa.Value
	sends    map[string][]ssa.Value
	escaped  map[*ssa.Function]bool // function value handed to something unknown
}

type site struct {
	call ssa.CallInstruction
	kind string // call, go, defer, callback, async
	arg  int    // for callbacks: position of the function among the arguments
}

func sigKey(s *types.Signature) string {
	unnamed := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewParam(token.NoPos, nil, "", t.At(i).Type()))
		}

		return types.NewTuple(vs...)
	}

	return types.TypeString(types.NewSignatureType(nil, nil, nil, unnamed(s.Params()), unnamed(s.Results()), s.Variadic()), nil)
}

// asyncCallees run the function they are given in another goroutine.
func isAsyncCallee(f *ssa.Function) bool {
	if f == nil || f.Object() == nil || f.Object().Pkg() == nil {
		return false
	}

	switch f.Object().Pkg().Path() + "." + f.Name() {
	case "golang.org/x/sync/errgroup.Go", "golang.org/x/sync/errgroup.TryGo", "time.AfterFunc", "context.AfterFunc", "sync.Go":
		return true
	}

	return false
}

func newCalls(p *Prog) *Calls {
	c := &Calls{p: p, addrOf: map[string][]*ssa.Function{}, methods: map[string][]*ssa.Function{}, sites: map[*ssa.Function][]site{},
		stores: map[string][]ssa.Value{}, closures: map[*ssa.Function][]*ssa.MakeClosure{}, allocSt: map[ssa.Value][]ssa.Value{},
		sends: map[string][]ssa.Value{}, escaped: map[*ssa.Function]bool{}}

	seenAddr := map[*ssa.Function]bool{}

	for _, f := range p.all {
		if r := f.Signature.Recv(); r != nil {
			c.methods[f.Name()] = append(c.methods[f.Name()], f)
		}

		eachInstr(f, func(in ssa.Instruction) {
			var callee ssa.Value
			if call, ok := in.(ssa.CallInstruction); ok && !call.Common().IsInvoke() {
				callee = call.Common().Value
			}

			var ops []*ssa.Value
			for _, op := range in.Operands(ops) {
				if op == nil || *op == nil || *op == callee && !isArg(in, *op) {
					continue
				}

				fn := funcOf(*op)
				if fn == nil {
					continue
				}

				if _, mk := in.(*ssa.MakeClosure); mk {
					continue // the closure itself is the use
				}

				if !seenAddr[fn] {
					seenAddr[fn] = true
					k := sigKey(fn.Signature)
					c.addrOf[k] = append(c.addrOf[k], fn)
				}
			}

			switch in := in.(type) {
			case *ssa.MakeClosure:
				fn := in.Fn.(*ssa.Function)
				c.closures[fn] = append(c.closures[fn], in)
			case *ssa.Store:
				if k := memKey(in.Addr); k != "" {
					c.stores[k] = append(c.stores[k], in.Val)
				}

				if base := allocBase(in.Addr); base != nil {
					c.allocSt[base] = append(c.allocSt[base], in.Val)
				}
			case *ssa.MapUpdate:
				k := "elem:" + in.Map.Type().Underlying().(*types.Map).Elem().String()
				c.stores[k] = append(c.stores[k], in.Value)
			case *ssa.Send:
				k := in.Chan.Type().Underlying().(*types.Chan).Elem().String()
				c.sends[k] = append(c.sends[k], in.X)
			case *ssa.Select:
				for _, s := range in.States {
					if s.Dir == types.SendOnly {
						k := s.Chan.Type().Underlying().(*types.Chan).Elem().String()
						c.sends[k] = append(c.sends[k], s.Send)
					}
				}
			}
		})
	}

	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}

			kind := "call"
			switch in.(type) {
			case *ssa.Go:
				kind = "go"
			case *ssa.Defer:
				kind = "defer"
			}

			callees := c.callees(call)
			for _, g := range callees {
				c.sites[g] = append(c.sites[g], site{call, kind, -1})
			}

			// function values given to code outside of the repository
			ext := false
			for _, g := range callees {
				if !p.inRepo(g) {
					ext = true
				}
			}

			if ext || len(callees) == 0 {
				for i, a := range call.Common().Args {
					for _, fn := range c.funcsOf(a, map[ssa.Value]bool{}) {
						k := "callback"
						if kind == "go" || isAsyncCallee(call.Common().StaticCallee()) {
							k = "async"
						}

						c.sites[fn] = append(c.sites[fn], site{call, k, i})
					}
				}
			}
		})
	}

	return c
}

func isArg(in ssa.Instruction, v ssa.Value) bool {
	if call, ok := in.(ssa.CallInstruction); ok {
		for _, a := range call.Common().Args {
			if a == v {
				return true
			}
		}
	}

	return false
}

func funcOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	}

	return nil
}

// unwrapFn replaces a bound method or thunk by the method it calls.
func unwrapFn(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Name() == f.Object().Name() {
						return g
					}
				}
			}
		}
	}

	return f
}

// allocBase is the local variable, captured variable or global that an address
// is exactly the address of.
func allocBase(v ssa.Value) ssa.Value {
	switch v := v.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return v
	}

	return nil
}

// memKey names the memory an address denotes, by types: a field of a struct
// type or the elements of a container.
func memKey(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := a.X.Type().Underlying().(*types.Pointer).Elem()
		return fieldKey(st, a.Field)
	case *ssa.IndexAddr:
		return "elem:" + addr.Type().Underlying().(*types.Pointer).Elem().String()
	case *ssa.Global:
		return "global:" + a.String()
	}

	return ""
}

func fieldKey(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	return "field:" + types.Unalias(st).String() + "." + s.Field(i).Name()
}

// callees resolves a call within the repository and to static functions
// outside of it.
func (c *Calls) callees(call ssa.CallInstruction) []*ssa.Function {
	cc := call.Common()
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{unwrapFn(f)}
	}

	if cc.IsInvoke() {
		var out []*ssa.Function

		iface, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}

		for _, m := range c.methods[cc.Method.Name()] {
			rt := m.Signature.Recv().Type()
			if types.Implements(rt, iface) || types.Implements(types.NewPointer(rt), iface) {
				out = append(out, m)
			}
		}

		return out
	}

	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}

	// a function value: what may flow there, or everything of its type
	fns := c.funcsOf(cc.Value, map[ssa.Value]bool{})
	if len(fns) > 0 {
		return fns
	}

	sig := cc.Value.Type().Underlying().(*types.Signature)

	var out []*ssa.Function
	for _, f := range c.addrOf[sigKey(sig)] {
		out = append(out, unwrapFn(f))
	}

	return out
}

// funcsOf finds the functions a value is locally known to be.
func (c *Calls) funcsOf(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return nil
	}

	seen[v] = true

	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{unwrapFn(v)}
	case *ssa.MakeClosure:
		return []*ssa.Function{unwrapFn(v.Fn.(*ssa.Function))}
	case *ssa.ChangeType:
		return c.funcsOf(v.X, seen)
	case *ssa.MakeInterface:
		return c.funcsOf(v.X, seen)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			out = append(out, c.funcsOf(e, seen)...)
		}

		return out
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if base := allocBase(v.X); base != nil {
				var out []*ssa.Function
				for _, s := range c.allocSt[base] {
					out = append(out, c.funcsOf(s, seen)...)
				}

				return out
			}
		}
	}

	return nil
}

// reach visits the functions called from f, on the same goroutine (and by
// deferred calls), f included. The path is the chain of callers.
func (c *Calls) reach(f *ssa.Function, visit func(f *ssa.Function, path []*ssa.Function) bool) {
	seen := map[*ssa.Function]bool{}

	var rec func(f *ssa.Function, path []*ssa.Function)
	rec = func(f *ssa.Function, path []*ssa.Function) {
		if seen[f] || !c.p.inRepo(f) {
			return
		}

		seen[f] = true
		path = append(path[:len(path):len(path)], f)

		if !visit(f, path) {
			return
		}

		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}

			if _, isGo := in.(*ssa.Go); isGo {
				return
			}

			for _, g := range c.callees(call) {
				rec(g, path)
			}

			static := call.Common().StaticCallee()
			if static != nil && !c.p.inRepo(static) && !isAsyncCallee(static) {
				for _, a := range call.Common().Args {
					for _, g := range c.funcsOf(a, map[ssa.Value]bool{}) {
						rec(g, path)
					}
				}
			}
		})
	}
	rec(f, nil)
}

// goRoots are the functions started in goroutines of their own.
func (c *Calls) goRoots() map[*ssa.Function][]ssa.CallInstruction {
	out := map[*ssa.Function][]ssa.CallInstruction{}

	for f, ss := range c.sites {
		for _, s := range ss {
			if s.kind == "go" && s.arg < 0 || s.kind == "async" {
				out[f] = append(out[f], s.call)
			}
		}
	}

	return out
}

func sortedFns(m map[*ssa.Function][]ssa.CallInstruction) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}

	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })

	return out
}

// origins traces a value back, through calls, fields, containers, channels and
// captured variables, to the values it may come from.
func (c *Calls) origins(v ssa.Value) []ssa.Value {
	seen := map[ssa.Value]bool{}
	seenKey := map[string]bool{}

	var out []ssa.Value

	var rec func(v ssa.Value)

	byKey := func(k string) {
		if seenKey[k] {
			return
		}

		seenKey[k] = true
		for _, s := range c.stores[k] {
			rec(s)
		}
	}

	// content follows what is stored in a variable.
	seenVar := map[ssa.Value]bool{}

	var content func(base ssa.Value)

	content = func(base ssa.Value) {
		if seenVar[base] {
			return
		}

		seenVar[base] = true

		for _, s := range c.allocSt[base] {
			rec(s)
		}

		fv, ok := base.(*ssa.FreeVar)
		if !ok {
			return
		}

		for _, mc := range c.closures[fv.Parent()] {
			for i, f := range fv.Parent().FreeVars {
				if f != fv {
					continue
				}

				if b := allocBase(mc.Bindings[i]); b != nil {
					content(b)
				} else {
					rec(mc.Bindings[i])
				}
			}
		}
	}

	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}

		seen[v] = true

		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				rec(e)
			}
		case *ssa.ChangeType:
			rec(v.X)
		case *ssa.ChangeInterface:
			rec(v.X)
		case *ssa.MakeInterface:
			rec(v.X)
		case *ssa.TypeAssert:
			rec(v.X)
		case *ssa.Convert:
			rec(v.X)
		case *ssa.Slice:
			rec(v.X)
		case *ssa.Parameter:
			idx := paramIdx(v)
			found := false

			for _, s := range c.sites[v.Parent()] {
				if s.arg >= 0 {
					continue
				}

				args := s.call.Common().Args
				if s.call.Common().IsInvoke() {
					args = append([]ssa.Value{s.call.Common().Value}, args...)
				}

				if idx < len(args) {
					found = true
					rec(args[idx])
				}
			}

			if !found || v.Parent().Object() != nil && v.Parent().Object().Exported() {
				out = append(out, v)
			}
		case *ssa.FreeVar:
			for _, mc := range c.closures[v.Parent()] {
				for i, fv := range v.Parent().FreeVars {
					if fv == v {
						rec(mc.Bindings[i])
					}
				}
			}
		case *ssa.Alloc:
			out = append(out, v)
			for _, s := range c.allocSt[v] {
				rec(s)
			}
		case *ssa.Extract:
			if call, ok := v.Tuple.(*ssa.Call); ok {
				if !c.results(call, v.Index, rec) {
					out = append(out, v)
				}

				return
			}

			if sel, ok := v.Tuple.(*ssa.Select); ok && v.Index >= 2 {
				n := 2
				for _, st := range sel.States {
					if st.Dir == types.RecvOnly {
						if n == v.Index {
							for _, s := range c.sends[st.Chan.Type().Underlying().(*types.Chan).Elem().String()] {
								rec(s)
							}
						}

						n++
					}
				}

				return
			}

			if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
				rec(ta.X)
				return
			}

			if lk, ok := v.Tuple.(*ssa.Lookup); ok && v.Index == 0 {
				rec(lk)
				return
			}

			if u, ok := v.Tuple.(*ssa.UnOp); ok && u.Op == token.ARROW && v.Index == 0 {
				for _, s := range c.sends[u.X.Type().Underlying().(*types.Chan).Elem().String()] {
					rec(s)
				}

				return
			}

			out = append(out, v)
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					for _, a := range v.Call.Args {
						rec(a)
					}

					return
				}

				out = append(out, v)

				return
			}

			if !c.results(v, 0, rec) {
				out = append(out, v)
			}
		case *ssa.UnOp:
			switch v.Op {
			case token.MUL:
				if base := allocBase(v.X); base != nil {
					content(base)

					return
				}

				if k := memKey(v.X); k != "" {
					byKey(k)
					return
				}

				out = append(out, v)
			case token.ARROW:
				for _, s := range c.sends[v.X.Type().Underlying().(*types.Chan).Elem().String()] {
					rec(s)
				}
			default:
				out = append(out, v)
			}
		case *ssa.Field:
			byKey(fieldKey(v.X.Type(), v.Field))
		case *ssa.Index:
			byKey("elem:" + v.Type().String())
		case *ssa.Lookup:
			if m, ok := v.X.Type().Underlying().(*types.Map); ok {
				byKey("elem:" + m.Elem().String())
				return
			}

			out = append(out, v)
		default:
			out = append(out, v)
		}
	}
	rec(v)

	return out
}

func (c *Calls) results(call *ssa.Call, i int, rec func(ssa.Value)) bool {
	callees := c.callees(call)
	if len(callees) == 0 {
		return false
	}

	all := true

	for _, g := range callees {
		if len(g.Blocks) == 0 || !c.p.inRepo(g) {
			all = false
			continue
		}

		for _, b := range g.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
				rec(r.Results[i])
			}
		}
	}

	return all
}

func paramIdx(v *ssa.Parameter) int {
	for i, q := range v.Parent().Params {
		if q == v {
			return i
		}
	}

	return -1
}

func pathStr(path []*ssa.Function) []string {
	var out []string
	for _, f := range path {
		out = append(out, fname(f))
	}

	return out
}

// calleeName names the static or interface callee: "pkg/path.Name" or
// "pkg/path.Type.Name".
func calleeName(call ssa.CallInstruction) string {
	cc := call.Common()
	if cc.IsInvoke() {
		return typeName(cc.Value.Type()) + "." + cc.Method.Name()
	}

	f := cc.StaticCallee()
	if f == nil {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return "builtin." + b.Name()
		}

		return ""
	}

	return fnFullName(f)
}

func fnFullName(f *ssa.Function) string {
	if f.Origin() != nil {
		f = f.Origin()
	}

	if r := f.Signature.Recv(); r != nil {
		return typeName(r.Type()) + "." + f.Name()
	}

	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() + "." + f.Name()
	}

	return f.String()
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}

	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}

		return n.Obj().Name()
	}

	return t.String()
}
