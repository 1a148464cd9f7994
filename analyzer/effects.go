package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The memory that functions may write to, as summaries over their parameters:
// a flow-insensitive points-to analysis, one summary per function.

// mem is a piece of memory as seen from a function: what a parameter (or a
// captured variable) refers to directly or further on, a package variable, or
// something made in the function.
type mem struct {
	kind  byte // P: directly, D: further on, G: package variable, H: what it leads to, A: made here, F: made by the callee
	idx   int  // parameter; captured variables count from 1000
	id    ssa.Value
	field int    // of something made here, -1: all of it
	typ   string // the type of what is there, empty: any
}

type memSet map[mem]bool

func (s memSet) add(o memSet) bool {
	ch := false

	for m := range o {
		if !s[m] {
			s[m] = true
			ch = true
		}
	}

	return ch
}

type effectSite struct {
	pos    token.Pos
	append bool
	via    *ssa.Function // the callee that does it
	from   mem           // what it is for the callee
}

type effect struct {
	fn      *ssa.Function
	writes  map[mem]effectSite
	results []memSet
	inside  []memSet // what new memory among the results leads to
	flows   map[mem]memSet

	pts     map[ssa.Value]memSet
	content map[mem]memSet
	changed bool
	e       *Effects
}

// Effects holds the summaries of all functions of the repository.
type Effects struct {
	p   *Prog
	cg  *Calls
	sum map[*ssa.Function]*effect

	concrete []types.Type
	refs     map[string][]string
	byKey    map[string]types.Type
	fit      map[string]bool
}

const captured = 1000

func newEffects(p *Prog) *Effects {
	e := &Effects{p: p, cg: newCalls(p), sum: map[*ssa.Function]*effect{},
		refs: map[string][]string{}, byKey: map[string]types.Type{}, fit: map[string]bool{}}

	for _, sp := range p.spkgs {
		if !strings.HasPrefix(sp.Pkg.Path(), "github.com/metafates/bento") {
			continue
		}

		for _, n := range sp.Pkg.Scope().Names() {
			tn, ok := sp.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}

			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}

			e.concrete = append(e.concrete, tn.Type())
		}
	}

	for _, f := range p.all {
		s := &effect{fn: f, writes: map[mem]effectSite{}, flows: map[mem]memSet{}, pts: map[ssa.Value]memSet{}, content: map[mem]memSet{}, e: e}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			s.results = append(s.results, memSet{})
			s.inside = append(s.inside, memSet{})
		}

		e.sum[f] = s
	}

	for changed, n := true, 0; changed && n < 60; n++ {
		changed = false

		for _, f := range p.all {
			if e.pass(e.sum[f]) {
				changed = true
			}
		}
	}

	return e
}

// refersMem reports that values of a type refer to memory that can be written.
func refersMem(t types.Type) bool {
	return refersMemSeen(t, map[types.Type]bool{})
}

func refersMemSeen(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}

	seen[t] = true

	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersMemSeen(u.Field(i).Type(), seen) {
				return true
			}
		}

		return false
	case *types.Array:
		return refersMemSeen(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refersMemSeen(u.At(i).Type(), seen) {
				return true
			}
		}

		return false
	}

	return true
}

// pointees are the types of what a value of a type refers to directly.
func (e *Effects) pointees(t types.Type) []string {
	key := types.TypeString(t, nil)
	if out, ok := e.refs[key]; ok {
		return out
	}

	e.refs[key] = nil
	seen := map[string]bool{}
	visited := map[types.Type]bool{}

	var walk func(t types.Type)

	walk = func(t types.Type) {
		if visited[t] {
			return
		}

		visited[t] = true

		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				seen[""] = true
			}
		case *types.Pointer:
			seen[e.key(u.Elem())] = true
		case *types.Slice:
			seen[e.key(u.Elem())] = true
		case *types.Chan:
			seen[e.key(types.NewTuple(types.NewVar(0, nil, "", u.Elem())))] = true
		case *types.Map:
			seen[e.key(types.NewTuple(types.NewVar(0, nil, "", u.Key()), types.NewVar(0, nil, "", u.Elem())))] = true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Array:
			walk(u.Elem())
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type())
			}
		case *types.Signature:
			seen[e.key(t)] = true
		case *types.Interface:
			if _, isParam := t.(*types.TypeParam); isParam || u.NumMethods() == 0 {
				seen[""] = true
				return
			}

			if types.TypeString(t, nil) == "error" {
				return
			}

			n := 0

			for _, c := range e.concrete {
				if types.Implements(c, u) {
					walk(c)
					n++
				} else if q := types.NewPointer(c); types.Implements(q, u) {
					walk(q)
					n++
				}
			}

			if n == 0 {
				seen[""] = true
			}
		default:
			seen[""] = true
		}
	}

	walk(t)

	var out []string
	for k := range seen {
		out = append(out, k)
	}

	sort.Strings(out)
	e.refs[key] = out

	return out
}

// key names a type and remembers it.
func (e *Effects) key(t types.Type) string {
	k := types.TypeString(t, nil)
	if _, ok := e.byKey[k]; !ok {
		e.byKey[k] = t
	}

	return k
}

// fits reports that memory of one type may be (in) memory of another.
func (e *Effects) fits(a, b string) bool {
	if a == "" || b == "" || a == b {
		return true
	}

	k := a + "|" + b
	if v, ok := e.fit[k]; ok {
		return v
	}

	v := within(e.byKey[a], e.byKey[b]) || within(e.byKey[b], e.byKey[a])
	e.fit[k] = v

	return v
}

// within reports that a value of a type has one of another in it.
func within(t, in types.Type) bool {
	if types.Identical(t, in) || types.Identical(t.Underlying(), in.Underlying()) {
		return true
	}

	if _, ok := t.(*types.TypeParam); ok {
		return true
	}

	if _, ok := in.(*types.TypeParam); ok {
		return true
	}

	switch u := in.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if within(t, u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return within(t, u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if within(t, u.At(i).Type()) {
				return true
			}
		}
	}

	return false
}

// narrow keeps what a value of a type can refer to.
func (e *Effects) narrow(ms memSet, t types.Type) memSet {
	if t == nil {
		return ms
	}

	ts := e.pointees(t)
	out := memSet{}

	for m := range ms {
		for _, k := range ts {
			if e.fits(m.typ, k) {
				out[m] = true
				break
			}
		}
	}

	return out
}

// typed is a piece of memory for each type of what a value refers to.
func (e *Effects) typed(m mem, t types.Type) memSet {
	out := memSet{}

	for _, k := range e.pointees(t) {
		m.typ = k
		out[m] = true
	}

	return out
}

func (s *effect) of(v ssa.Value) memSet {
	if v == nil || !refersMem(v.Type()) {
		return nil
	}

	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return s.e.typed(mem{kind: 'G', id: v, field: -1}, v.Type())
	case *ssa.Parameter:
		for i, q := range s.fn.Params {
			if q == v {
				return s.e.typed(mem{kind: 'P', idx: i, field: -1}, v.Type())
			}
		}
	case *ssa.FreeVar:
		for i, q := range s.fn.FreeVars {
			if q == v {
				return s.e.typed(mem{kind: 'P', idx: captured + i, field: -1}, v.Type())
			}
		}
	}

	return s.pts[v]
}

func (s *effect) point(v ssa.Value, to memSet) {
	if len(to) == 0 || !refersMem(v.Type()) {
		return
	}

	if !inner(v) {
		to = s.e.narrow(to, v.Type())
	}

	if s.pts[v] == nil {
		s.pts[v] = memSet{}
	}

	if s.pts[v].add(to) {
		s.changed = true
	}
}

// inner reports that a value points into something.
func inner(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Range, *ssa.Slice, *ssa.SliceToArrayPointer, *ssa.Next, *ssa.Select, *ssa.MakeClosure,
		*ssa.Convert, *ssa.ChangeType, *ssa.MultiConvert:
		return true
	}

	return false
}

// load is what a piece of memory contains.
func (s *effect) load(m mem) memSet {
	out := memSet{}

	switch m.kind {
	case 'P', 'D', 'G', 'H':
		next := mem{kind: 'D', idx: m.idx, field: -1}
		if m.kind == 'G' || m.kind == 'H' {
			next = mem{kind: 'H', id: m.id, field: -1}
		}

		if m.typ == "" {
			out[next] = true
		} else {
			out.add(s.e.typed(next, s.e.byKey[m.typ]))
		}

		for k, c := range s.content {
			if k.idx == m.idx && k.id == m.id && (k.kind == m.kind || k.kind != 'A' && m.kind != 'A') && s.e.fits(k.typ, m.typ) {
				out.add(c)
			}
		}
	case 'A':
		for k, c := range s.content {
			if k.kind == 'A' && k.id == m.id && k.idx == m.idx && (m.field < 0 || k.field < 0 || m.field == k.field) {
				out.add(c)
			}
		}
	}

	return out
}

func (s *effect) loadAll(ms memSet, t types.Type) memSet {
	if !refersMem(t) {
		return nil
	}

	out := memSet{}
	for m := range ms {
		out.add(s.load(m))
	}

	return s.e.narrow(out, t)
}

func (s *effect) put(m mem, what memSet) {
	if len(what) == 0 {
		return
	}

	if s.content[m] == nil {
		s.content[m] = memSet{}
	}

	if s.content[m].add(what) {
		s.changed = true
	}
}

func (s *effect) write(ms memSet, site effectSite) {
	for m := range ms {
		if m.kind == 'A' {
			continue
		}

		old, ok := s.writes[m]
		if !ok || old.append && !site.append {
			s.writes[m] = site
			s.changed = true
		}
	}
}

// beyond is all memory that is reached from some, not counting itself.
func (s *effect) beyond(ms memSet) memSet {
	out := memSet{}

	var work []mem
	for m := range ms {
		work = append(work, m)
	}

	for len(work) > 0 {
		m := work[len(work)-1]
		work = work[:len(work)-1]

		for n := range s.load(m) {
			if !out[n] {
				out[n] = true
				work = append(work, n)
			}
		}
	}

	return out
}

func made(v ssa.Value, idx int) mem { return mem{kind: 'A', id: v, idx: idx, field: -1} }

// makes is what an instruction makes, by what its value refers to.
func (e *Effects) makes(v ssa.Value, idx int, t types.Type) memSet {
	return e.typed(made(v, idx), t)
}

func (e *Effects) pass(s *effect) bool {
	s.changed = false

	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(s, in)
		}
	}

	return s.changed
}

func (e *Effects) instr(s *effect, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		s.point(in, e.makes(in, 0, in.Type()))
	case *ssa.MakeSlice:
		s.point(in, e.makes(in, 0, in.Type()))
	case *ssa.MakeMap:
		s.point(in, e.makes(in, 0, in.Type()))
	case *ssa.MakeChan:
		s.point(in, e.makes(in, 0, in.Type()))
	case *ssa.Phi:
		for _, x := range in.Edges {
			s.point(in, s.of(x))
		}
	case *ssa.ChangeType:
		s.point(in, s.of(in.X))
	case *ssa.ChangeInterface:
		s.point(in, s.of(in.X))
	case *ssa.Convert:
		if refersMem(in.X.Type()) {
			s.point(in, s.of(in.X))
		} else {
			s.point(in, e.makes(in, 0, in.Type()))
		}
	case *ssa.MultiConvert:
		s.point(in, s.of(in.X))
	case *ssa.MakeInterface:
		s.point(in, s.of(in.X))
	case *ssa.TypeAssert:
		s.point(in, s.of(in.X))
	case *ssa.SliceToArrayPointer:
		s.point(in, s.of(in.X))
	case *ssa.Slice:
		if k, ok := in.Max.(*ssa.Const); ok && k.Int64() == 0 {
			return
		}

		s.point(in, s.of(in.X))
	case *ssa.Extract:
		if call, ok := in.Tuple.(*ssa.Call); ok {
			s.point(in, e.resultOf(s, call, in.Index))
			return
		}

		s.point(in, s.of(in.Tuple))
	case *ssa.Field:
		s.point(in, s.of(in.X))
	case *ssa.Index:
		s.point(in, s.of(in.X))
	case *ssa.FieldAddr:
		to := memSet{}

		for m := range s.of(in.X) {
			if m.kind == 'A' && m.field < 0 {
				m.field = in.Field
			}

			to[m] = true
		}

		s.point(in, to)
	case *ssa.IndexAddr:
		s.point(in, s.of(in.X))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			if last, ok := reaching(in, -1); ok {
				for _, v := range last {
					s.point(in, s.of(v))
				}

				return
			}

			// each field of a variable
			if u, ok := in.Type().Underlying().(*types.Struct); ok {
				to, all := memSet{}, true

				for k := 0; k < u.NumFields() && all; k++ {
					last, ok := reaching(in, k)
					for _, v := range last {
						to.add(e.narrow(s.of(v), u.Field(k).Type()))
					}

					all = ok
				}

				if all {
					s.point(in, to)
					return
				}
			}

			s.point(in, s.loadAll(s.of(in.X), in.Type()))
		case token.ARROW:
			s.point(in, s.loadAll(s.of(in.X), in.Type()))
		}
	case *ssa.Lookup:
		s.point(in, s.loadAll(s.of(in.X), in.Type()))
	case *ssa.Range:
		s.point(in, s.of(in.X))
	case *ssa.Next:
		if in.IsString {
			return
		}

		if r, ok := in.Iter.(*ssa.Range); ok {
			s.point(in, s.loadAll(s.of(r.X), in.Type()))
		}
	case *ssa.Store:
		to := s.of(in.Addr)
		s.write(to, effectSite{pos: in.Pos()})

		for m := range to {
			s.put(m, s.of(in.Val))
		}
	case *ssa.MapUpdate:
		to := s.of(in.Map)
		s.write(to, effectSite{pos: in.Pos()})

		for m := range to {
			s.put(m, s.of(in.Key))
			s.put(m, s.of(in.Value))
		}
	case *ssa.Send:
		for m := range s.of(in.Chan) {
			s.put(m, s.of(in.X))
		}
	case *ssa.Select:
		for _, st := range in.States {
			if st.Dir == types.RecvOnly {
				s.point(in, s.loadAll(s.of(st.Chan), in.Type()))
			}
		}
	case *ssa.MakeClosure:
		me := made(in, 0)
		s.point(in, e.makes(in, 0, in.Type()))

		fn := in.Fn.(*ssa.Function)

		for i, b := range in.Bindings {
			s.put(me, s.of(b))

			if c := e.sum[fn]; c != nil {
				e.apply(s, c, in.Pos(), func(idx int) memSet {
					if idx == captured+i {
						return s.of(b)
					}

					return nil
				})
			}
		}
	case *ssa.Return:
		for i, r := range in.Results {
			dir, inside := memSet{}, memSet{}

			for m := range s.of(r) {
				if m.kind != 'A' {
					dir[m] = true
					continue
				}

				dir[mem{kind: 'F', field: -1, typ: m.typ}] = true

				for n := range s.beyond(memSet{m: true}) {
					if n.kind != 'A' {
						inside[n] = true
					}
				}
			}

			if s.results[i].add(dir) || s.inside[i].add(inside) {
				s.changed = true
			}
		}

		for m, what := range s.content {
			if m.kind != 'P' && m.kind != 'D' {
				continue
			}

			to := memSet{}

			for n := range what {
				if n.kind != 'A' {
					to[n] = true
					continue
				}

				for q := range s.beyond(memSet{n: true}) {
					if q.kind != 'A' {
						to[q] = true
					}
				}
			}

			for n := range to {
				if n.kind == 'D' && n.idx == m.idx {
					delete(to, n)
				}
			}

			if len(to) > 0 {
				if s.flows[m] == nil {
					s.flows[m] = memSet{}
				}

				if s.flows[m].add(to) {
					s.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		e.call(s, in)
	}
}

// sift keeps memory that may be of a type.
func (e *Effects) sift(ms memSet, typ string) memSet {
	out := memSet{}

	for m := range ms {
		if e.fits(m.typ, typ) {
			out[m] = true
		}
	}

	return out
}

// translate maps a piece of memory of a callee to that of the caller.
func (e *Effects) translate(s *effect, m mem, arg func(int) memSet) memSet {
	switch m.kind {
	case 'P':
		return e.sift(arg(m.idx), m.typ)
	case 'D':
		return e.sift(s.beyond(arg(m.idx)), m.typ)
	case 'G', 'H':
		return memSet{m: true}
	}

	return nil
}

// apply adds the writes of a callee.
func (e *Effects) apply(s *effect, c *effect, pos token.Pos, arg func(int) memSet) {
	for m, site := range c.writes {
		s.write(e.translate(s, m, arg), effectSite{pos: pos, append: site.append, via: c.fn, from: m})
	}

	for m, what := range c.flows {
		to := e.translate(s, m, arg)

		for n := range what {
			from := e.translate(s, n, arg)
			for t := range to {
				s.put(t, from)
			}
		}
	}
}

func callArgs(call ssa.CallInstruction) []ssa.Value {
	cc := call.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}

	return cc.Args
}

// candidates are the functions of the repository that a call may be of.
func (e *Effects) candidates(call ssa.CallInstruction) []*ssa.Function {
	cc := call.Common()

	if f := cc.StaticCallee(); f != nil {
		if e.sum[f] != nil {
			return []*ssa.Function{f}
		}

		return nil
	}

	var out []*ssa.Function

	if cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)

		for _, f := range e.cg.methods[cc.Method.Name()] {
			if r := recvType(f); it != nil && r != nil && (types.Implements(r, it) || types.Implements(types.NewPointer(r), it)) {
				out = append(out, f)
			}
		}

		return out
	}

	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}

	for _, f := range e.cg.addrOf[sigKey(cc.Signature())] {
		if e.sum[f] != nil && f.Signature.Recv() == nil {
			out = append(out, f)
		}
	}

	for mc := range e.cg.closures {
		if e.sum[mc] != nil && sigKey(mc.Signature) == sigKey(cc.Signature()) {
			out = append(out, mc)
		}
	}

	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })

	return out
}

func effCallee(call ssa.CallInstruction) string {
	f := call.Common().StaticCallee()
	if f == nil {
		if b, ok := call.Common().Value.(*ssa.Builtin); ok {
			return "builtin." + b.Name()
		}

		return ""
	}

	if o := f.Origin(); o != nil {
		f = o
	}

	return fnFullName(f)
}

// stdWrites are the functions of other packages that write to an argument.
var stdWrites = map[string]int{
	"sort.Slice": 0, "sort.SliceStable": 0, "sort.Ints": 0, "sort.Strings": 0, "sort.Float64s": 0, "sort.Sort": 0, "sort.Stable": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "slices.Insert": 0, "slices.Delete": 0,
	"slices.DeleteFunc": 0, "slices.Compact": 0, "slices.CompactFunc": 0, "slices.Replace": 0, "maps.Copy": 0, "maps.DeleteFunc": 0,
	"maps.Insert": 0, "binary.PutUvarint": 0, "utf8.EncodeRune": 0, "io.ReadFull": 1, "slices.AppendSeq": 0, "math/rand.Shuffle": 1,
	"unicode/utf8.EncodeRune": 0,
}

// stdFresh are the functions of other packages whose result is new memory.
var stdFresh = map[string]bool{
	"slices.Clone": true, "maps.Clone": true, "slices.Concat": true, "slices.Collect": true, "slices.Sorted": true, "slices.Repeat": true,
	"slices.SortedFunc": true, "maps.Collect": true, "bytes.Clone": true,
}

func (e *Effects) call(s *effect, call ssa.CallInstruction) {
	args := callArgs(call)
	arg := func(i int) memSet {
		if i < len(args) {
			return s.of(args[i])
		}

		return nil
	}

	v, _ := call.(*ssa.Call)
	name := effCallee(call)

	if strings.HasPrefix(name, "builtin.") {
		switch name {
		case "builtin.append":
			site := effectSite{pos: call.Pos(), append: true}
			if !clipped(args[0], map[ssa.Value]bool{}) {
				s.write(arg(0), site)
			}

			me := made(v, 0)
			s.point(v, arg(0))
			s.point(v, e.makes(v, 0, v.Type()))

			el := v.Type().Underlying().(*types.Slice).Elem()
			what := s.loadAll(arg(0), el)
			if what == nil {
				what = memSet{}
			}

			what.add(s.loadAll(arg(1), el))
			s.put(me, what)

			for m := range arg(0) {
				s.put(m, s.loadAll(arg(1), el))
			}
		case "builtin.copy":
			s.write(arg(0), effectSite{pos: call.Pos()})

			if sl, ok := args[0].Type().Underlying().(*types.Slice); ok {
				for m := range arg(0) {
					s.put(m, s.loadAll(arg(1), sl.Elem()))
				}
			}
		case "builtin.clear", "builtin.delete":
			s.write(arg(0), effectSite{pos: call.Pos()})
		case "builtin.ssa:wrapnilchk":
			s.point(v, arg(0))
		}

		return
	}

	cs := e.candidates(call)
	for _, f := range cs {
		c := e.sum[f]
		e.apply(s, c, call.Pos(), arg)
	}

	if v != nil && v.Common().Signature().Results().Len() == 1 {
		s.point(v, e.resultOf(s, v, 0))
	}

	if len(cs) > 0 {
		return
	}

	if i, ok := stdWrites[name]; ok {
		s.write(arg(i), effectSite{pos: call.Pos()})
	}

	if f := call.Common().StaticCallee(); f != nil && f.Signature.Recv() != nil && isPtr(recvType(f)) && f.Pkg != nil {
		switch f.Pkg.Pkg.Path() {
		case "strings", "bytes", "container/list", "bufio", "sync/atomic", "container/heap", "container/ring", "text/tabwriter":
			s.write(arg(0), effectSite{pos: call.Pos()})
		}
	}
}

// resultOf is what a result of a call refers to.
func (e *Effects) resultOf(s *effect, call *ssa.Call, i int) memSet {
	args := callArgs(call)
	arg := func(i int) memSet {
		if i < len(args) {
			return s.of(args[i])
		}

		return nil
	}

	out := memSet{}
	name := effCallee(call)
	cs := e.candidates(call)

	for _, f := range cs {
		c := e.sum[f]
		if i >= len(c.results) {
			continue
		}

		for m := range c.results[i] {
			if m.kind == 'F' {
				n := made(call, i)
				n.typ = m.typ
				out[n] = true
			} else if m.kind == 'P' && m.idx >= captured || m.kind == 'D' && m.idx >= captured {
				// what a function has captured: found through its value
				out.add(s.beyond(s.of(call.Common().Value)))
			} else {
				out.add(e.translate(s, m, arg))
			}
		}

		inside := memSet{}

		for m := range c.inside[i] {
			if (m.kind == 'P' || m.kind == 'D') && m.idx >= captured {
				inside.add(s.beyond(s.of(call.Common().Value)))
			} else {
				inside.add(e.translate(s, m, arg))
			}
		}

		s.put(made(call, i), inside)
	}

	if len(cs) > 0 {
		return out
	}

	rt := call.Type()
	if tp, ok := rt.(*types.Tuple); ok {
		rt = tp.At(i).Type()
	}

	out.add(e.makes(call, i, rt))

	if stdFresh[name] {
		if sl, ok := call.Type().Underlying().(*types.Slice); ok {
			s.put(made(call, i), s.loadAll(arg(0), sl.Elem()))
		} else {
			s.put(made(call, i), s.beyond(arg(0)))
		}

		return out
	}

	// anything it was given
	if !strings.HasPrefix(name, "strings.") && !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "errors.") {
		for k := range args {
			out.add(arg(k))
		}
	}

	return out
}

// clipped reports that appending to a slice does not write beyond its length:
// it has no spare capacity.
func clipped(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}

	seen[v] = true

	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Slice:
		return v.Max != nil && (v.High == v.Max || sameConst(v.High, v.Max) || lenOf(v.Max, v.X) && (v.High == nil || lenOf(v.High, v.X)))
	case *ssa.Call:
		switch effCallee(v) {
		case "slices.Clip":
			return true
		case "slices.Grow", "builtin.append":
			return clipped(v.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		last, ok := reaching(v, -1)
		if !ok || len(last) == 0 {
			return false
		}

		for _, x := range last {
			if !clipped(x, seen) {
				return false
			}
		}

		return true
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !clipped(x, seen) {
				return false
			}
		}

		return true
	case *ssa.ChangeType:
		return clipped(v.X, seen)
	}

	return false
}

func sameConst(a, b ssa.Value) bool {
	x, ok := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)

	return ok && ok2 && x.Value != nil && y.Value != nil && x.Int64() == y.Int64()
}

func lenOf(v, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}

	b, ok := c.Common().Value.(*ssa.Builtin)

	return ok && b.Name() == "len" && valueKey(c.Common().Args[0]) == valueKey(of)
}

// reaching is what a load of a field of a local variable reads: the values last
// stored to the field, or to all of the variable. It is not known if the address
// of the variable is used otherwise.
func reaching(load *ssa.UnOp, field int) ([]ssa.Value, bool) {
	at := load.X
	if fa, ok := at.(*ssa.FieldAddr); ok {
		at, field = fa.X, fa.Field
	}

	al, ok := at.(*ssa.Alloc)
	if !ok {
		return nil, false
	}

	// what a store to an address changes: the field, all, or only a part
	stores := map[ssa.Instruction]bool{} // true: what is read is stored

	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == al {
				return nil, false
			}

			stores[r] = true
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.Store:
					if q.Val == r {
						return nil, false
					}

					if field < 0 {
						stores[q] = false
					} else if r.Field == field {
						stores[q] = true
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if field < 0 || r.Field == field {
						return nil, false
					}
				}
			}
		default:
			return nil, false
		}
	}

	var out []ssa.Value

	seen := map[*ssa.BasicBlock]bool{}
	fine := true

	var back func(b *ssa.BasicBlock, from int)

	back = func(b *ssa.BasicBlock, from int) {
		for i := from - 1; i >= 0; i-- {
			in := b.Instrs[i]

			whole, ok := stores[in]
			if !ok {
				if in == ssa.Instruction(al) {
					return
				}

				continue
			}

			if !whole {
				// a part: what else is there counts too
				fine = false
				return
			}

			out = append(out, in.(*ssa.Store).Val)

			return
		}

		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				back(q, len(q.Instrs))
			}
		}
	}

	for i, in := range load.Block().Instrs {
		if in == ssa.Instruction(load) {
			back(load.Block(), i)
		}
	}

	return out, fine
}
