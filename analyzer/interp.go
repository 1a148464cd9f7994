package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter of SSA: it computes, for a function and an
// abstract state at its entry, the abstract states at its exits.
type Interp struct {
	p         *Prog
	hooks     Hooks
	lazy      map[string]ObjID
	lazyInfo  map[ObjID]*Obj
	bitsUsed  int
	trimmed   int
	maxNodes  int
	factLimit int
	joinCons  int
	maxStates int
	fmaps     bool                   // maps are followed exactly, as functions
	keyID     func(t types.Type) int // the field that identifies the keys of maps
	reals     map[string]real        // floats are followed as reals, by name
	ordFlt    bool                   // floats are followed by their order
	useSegs   bool                   // follow where the elements of arrays are from
	coarse    bool                   // joins keep literals only
	maxUnrol  int
	wrap      bool                                            // sums of ints wrap around
	usePos    bool                                            // numbers in elements that are not negative are followed
	joinMore  bool                                            // joins look for more that holds in both states
	splitMax  bool                                            // the larger of a number and zero is one or the other
	partition func(n *Node, live func(ssa.Value) bool) string // states at a loop that are kept apart
	peel      int                                             // iterations that are followed one by one in any loop
	quiet     int
	steps     int
	maxSteps  int
	deadline  time.Time // undecided after that
	frames    int
	loops     map[*ssa.Function]*loopInfo
	globals   map[*ssa.Global]ObjID
	gname     map[ObjID]*ssa.Global
	notes     map[string]bool
	strTerms  map[string]Str
	byteStrs  map[string]byteSrc
	trace     bool
	noInit    bool            // package variables are unknown
	inlineX   map[string]bool // packages outside of the repository that are inlined
}

// Hooks let a rule watch and replace what is interpreted.
type Hooks struct {
	call    func(c *CallCtx) (bool, []Outcome)
	lazy    func(st *State, o *Obj) Val
	elem    func(st *State, o *Obj, i Lin, v Val) Val
	goStmt  func(c *CallCtx)
	close   func(fr *Frame, st *State, ch Val, in ssa.Instruction)
	sel     func(fr *Frame, n *Node, s *ssa.Select, k int, chans []Val, send Val) (Val, bool) // a case is taken; false: impossible
	send    func(fr *Frame, n *Node, ch, v Val, in ssa.Instruction)
	recv    func(fr *Frame, n *Node, ch Val, in ssa.Instruction) Val
	index   func(fr *Frame, st *State, in ssa.Instruction, i, n Lin)
	slice   func(fr *Frame, st *State, in *ssa.Slice, lo, hi, max Lin, limit Lin)
	store   func(fr *Frame, st *State, in ssa.Instruction, p Ptr, v Val)
	load    func(fr *Frame, st *State, in ssa.Instruction, p Ptr)
	deref   func(fr *Frame, st *State, in ssa.Instruction, nil_ *bdd)
	rangeM  func(fr *Frame, st *State, in *ssa.Range, m Val)
	assertF func(fr *Frame, st *State, in ssa.Instruction)
}

type Frame struct {
	fn       *ssa.Function
	parent   *Frame
	site     ssa.Instruction
	deferred bool // run by the runtime because of a panic or at return
	depth    int
}

func (fr *Frame) path(p *Prog) []string {
	var out []string
	for f := fr; f != nil; f = f.parent {
		s := fname(f.fn)
		if f.site != nil {
			s += " called at " + p.pos(instrPos(f.site))
		}

		out = append([]string{s}, out...)
	}

	return out
}

// Outcome is one way for a call to end.
type Outcome struct {
	st    *State
	vals  []Val
	panic bool
}

type CallCtx struct {
	x      *Interp
	fr     *Frame
	st     *State
	instr  ssa.CallInstruction
	callee *ssa.Function
	name   string
	args   []Val
	fun    Fun
	sig    *types.Signature
}

func (c *CallCtx) ret(vals ...Val) (bool, []Outcome) {
	return true, []Outcome{{st: c.st, vals: vals}}
}

func (c *CallCtx) pos() string {
	if c.instr != nil {
		return c.x.p.pos(instrPos(c.instr))
	}

	return "-"
}

func newInterp(p *Prog) *Interp {
	return &Interp{p: p, lazy: map[string]ObjID{}, lazyInfo: map[ObjID]*Obj{}, maxNodes: 16, factLimit: 400, joinCons: 12, maxStates: 400, maxUnrol: 64, maxSteps: 4_000_000,
		loops: map[*ssa.Function]*loopInfo{}, globals: map[*ssa.Global]ObjID{}, gname: map[ObjID]*ssa.Global{}, notes: map[string]bool{}, strTerms: map[string]Str{}, byteStrs: map[string]byteSrc{},
		trace: os.Getenv("ANALYZER_TRACE") != "", inlineX: map[string]bool{"slices": true, "cmp": true}}
}

func (x *Interp) global(g *ssa.Global) ObjID {
	if id, ok := x.globals[g]; ok {
		return id
	}

	id := x.lazyObj("global:"+g.String(), 'v', g.Type().Underlying().(*types.Pointer).Elem())
	x.globals[g] = id
	x.gname[id] = g

	return id
}

// ---------------------------------------------------------------------------
// loops

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	inner  map[*ssa.BasicBlock]*loop // loops directly inside, by header
}

type loopInfo struct {
	top  *loop
	rpo  []*ssa.BasicBlock
	num  map[*ssa.BasicBlock]int
	live map[*ssa.BasicBlock]map[ssa.Value]bool
}

func (x *Interp) info(fn *ssa.Function) *loopInfo {
	if li := x.loops[fn]; li != nil {
		return li
	}

	li := &loopInfo{num: map[*ssa.BasicBlock]int{}}
	seen := map[*ssa.BasicBlock]bool{}

	var post []*ssa.BasicBlock

	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}

		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}

		post = append(post, b)
	}
	dfs(fn.Blocks[0])

	if fn.Recover != nil {
		dfs(fn.Recover)
	}

	for i := len(post) - 1; i >= 0; i-- {
		li.num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}

	bodies := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if li.num[s] > li.num[b] {
				continue
			}

			if !s.Dominates(b) {
				panic("irreducible control flow in " + fn.String())
			}

			body := bodies[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				bodies[s] = body
			}

			work := []*ssa.BasicBlock{b}

			for len(work) > 0 {
				w := work[len(work)-1]
				work = work[:len(work)-1]

				if body[w] {
					continue
				}

				body[w] = true
				work = append(work, w.Preds...)
			}
		}
	}

	li.top = &loop{body: seen, inner: map[*ssa.BasicBlock]*loop{}}

	var headers []*ssa.BasicBlock
	for h := range bodies {
		headers = append(headers, h)
	}

	sort.Slice(headers, func(i, j int) bool { return len(bodies[headers[i]]) > len(bodies[headers[j]]) })

	for _, h := range headers {
		l := &loop{header: h, body: bodies[h], inner: map[*ssa.BasicBlock]*loop{}}
		cur := li.top

		for {
			next := (*loop)(nil)

			for _, c := range cur.inner {
				if c.body[h] && c.header != h {
					next = c
				}
			}

			if next == nil {
				break
			}

			cur = next
		}

		cur.inner[h] = l
	}

	// liveness
	li.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range li.rpo {
		li.live[b] = map[ssa.Value]bool{}
	}

	for changed := true; changed; {
		changed = false

		for i := len(li.rpo) - 1; i >= 0; i-- {
			b := li.rpo[i]
			cur := map[ssa.Value]bool{}

			for _, s := range b.Succs {
				for v := range li.live[s] {
					cur[v] = true
				}

				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}

					delete(cur, ph)
				}

				for k, pr := range s.Preds {
					if pr != b {
						continue
					}

					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}

						addLive(cur, ph.Edges[k])
					}
				}
			}

			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}

				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}

				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						addLive(cur, *op)
					}
				}
			}

			// the phis of the block are live in it
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}

				cur[ph] = true
			}

			if len(cur) != len(li.live[b]) {
				li.live[b] = cur
				changed = true
			}
		}
	}

	// what the recover block needs is live everywhere
	if fn.Recover != nil {
		for _, b := range li.rpo {
			for v := range li.live[fn.Recover] {
				li.live[b][v] = true
			}
		}
	}

	x.loops[fn] = li

	return li
}

func addLive(m map[ssa.Value]bool, v ssa.Value) {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return
	}

	m[v] = true
}

// ---------------------------------------------------------------------------
// functions

var retKeys = func() (r [12]ssa.Value) {
	for i := range r {
		r[i] = &ssa.Const{}
	}

	return r
}()

// run interprets a call of fn.
func (x *Interp) run(fn *ssa.Function, args, binds []Val, st *State, parent *Frame, site ssa.Instruction, deferred bool) []Outcome {
	fr := &Frame{fn: fn, parent: parent, site: site, deferred: deferred}
	if parent != nil {
		fr.depth = parent.depth + 1
	}

	if fr.depth > 60 {
		panic("calls are nested too deeply at " + fn.String())
	}

	rec := 0

	for f := parent; f != nil; f = f.parent {
		if f.fn == fn {
			rec++
		}
	}

	if rec > 3 {
		panic("recursion of " + fn.String())
	}

	n := &Node{st: st, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		if i < len(args) {
			n.env[p] = args[i]
		}
	}

	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			n.env[fv] = binds[i]
		}
	}

	li := x.info(fn)
	e := &fexec{x: x, fr: fr, li: li}
	e.region(li.top, map[*ssa.BasicBlock][]*Node{fn.Blocks[0]: {n}})

	return x.mergeOutcomes(e.outs)
}

func (x *Interp) mergeOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}

	var nodes []*Node

	var kinds []bool

	for _, o := range outs {
		n := &Node{st: o.st, env: map[ssa.Value]Val{}}
		for i, v := range o.vals {
			n.env[retKeys[i]] = v
		}

		nodes = append(nodes, n)
		kinds = append(kinds, o.panic)
	}

	var res []Outcome

	for _, k := range []bool{false, true} {
		var group []*Node

		for i, n := range nodes {
			if kinds[i] == k {
				group = append(group, n)
			}
		}

		for _, n := range x.merge(group, nil) {
			o := Outcome{st: n.st, panic: k}

			if !k {
				for i := range outs {
					if !outs[i].panic {
						for q := range outs[i].vals {
							o.vals = append(o.vals, n.env[retKeys[q]])
						}

						break
					}
				}
			}

			res = append(res, o)
		}
	}

	return res
}

// merge unites states that are equal, and joins states beyond the limit.
func (x *Interp) merge(nodes []*Node, live func(ssa.Value) bool) []*Node {
	var out []*Node

	for _, n := range nodes {
		if n.st.dead || n.st.facts == bddFalse {
			continue
		}

		done := len(nodes) > 64 && x.maxNodes > 1<<16
		if done {
			out = append(out, n)
		}

		for i, o := range out {
			if done {
				break
			}

			if sameNode(o, n, live) {
				out[i] = joinNodes(o, n, live, joinExact)
				done = true

				break
			}
		}

		if !done {
			out = append(out, n)
		}
	}

	var parts []string

	if x.partition != nil && len(out) > x.maxNodes {
		for _, n := range out {
			parts = append(parts, x.partition(n, live))
		}
	}

	for len(out) > x.maxNodes {
		// join two of the same ghost
		joined := false

	outer:
		for i := range out {
			for k := i + 1; k < len(out); k++ {
				if parts != nil && parts[i] != parts[k] {
					continue
				}

				if out[i].st.ghost == out[k].st.ghost && out[i].defers == out[k].defers && samePanic(out[i], out[k]) {
					out[i] = joinNodes(out[i], out[k], live, joinExact)
					out = append(out[:k:k], out[k+1:]...)
					joined = true

					if parts != nil {
						parts = append(parts[:k:k], parts[k+1:]...)
					}

					break outer
				}
			}
		}

		if !joined && parts != nil {
			parts = nil
			continue
		}

		if !joined {
			break
		}
	}

	if len(out) > x.maxStates {
		panic("too many states")
	}

	return out
}

func samePanic(a, b *Node) bool { return (a.st.panic == nil) == (b.st.panic == nil) }

func sameNode(a, b *Node, live func(ssa.Value) bool) bool {
	if a.st.ghost != b.st.ghost || !samePanic(a, b) || len(a.st.gv) != len(b.st.gv) || a.defers != b.defers {
		return false
	}

	for k, v := range a.st.gv {
		w, ok := b.st.gv[k]
		if !ok || !valEq(v, w) {
			return false
		}
	}

	for k, v := range a.env {
		if live != nil && !live(k) {
			continue
		}

		w, ok := b.env[k]
		if !ok || (v == nil) != (w == nil) || v != nil && !valEq(v, w) {
			return false
		}
	}

	for id, oa := range a.st.heap {
		ob, ok := b.st.heap[id]
		if !ok {
			if b.st.x.lazyInfo[id] == nil {
				continue
			}

			ob = b.st.obj(id)
		}

		if !sameObj(oa, ob) {
			return false
		}
	}

	for id, ob := range b.st.heap {
		if _, ok := a.st.heap[id]; !ok && a.st.x.lazyInfo[id] != nil && !sameObj(a.st.obj(id), ob) {
			return false
		}
	}

	return true
}

type fexec struct {
	x    *Interp
	fr   *Frame
	li   *loopInfo
	outs []Outcome
}

// region interprets the blocks of a loop body (or the function) once.
func (e *fexec) region(l *loop, in map[*ssa.BasicBlock][]*Node) (back []*Node, exits map[*ssa.BasicBlock][]*Node) {
	exits = map[*ssa.BasicBlock][]*Node{}

	deliver := func(n *Node, to *ssa.BasicBlock) {
		switch {
		case to == l.header:
			back = append(back, n)
		case l.body[to]:
			in[to] = append(in[to], n)
		default:
			exits[to] = append(exits[to], n)
		}
	}

	for _, b := range e.li.rpo {
		if !l.body[b] || len(in[b]) == 0 {
			continue
		}

		nodes := in[b]
		delete(in, b)

		if in2 := l.inner[b]; in2 != nil {
			for to, ns := range e.loop(in2, nodes) {
				for _, n := range ns {
					deliver(n, to)
				}
			}

			continue
		}

		live := e.liveAt(b)
		nodes = e.x.merge(nodes, live)

		for _, n := range nodes {
			e.block(n, b, deliver)
		}
	}

	return back, exits
}

func (e *fexec) liveAt(b *ssa.BasicBlock) func(ssa.Value) bool {
	m := e.li.live[b]
	return func(v ssa.Value) bool { return m[v] }
}

// loop interprets a loop from its entry states to its exits.
func (e *fexec) loop(l *loop, entry []*Node) map[*ssa.BasicBlock][]*Node {
	x := e.x
	exits := map[*ssa.BasicBlock][]*Node{}
	live := e.liveAt(l.header)
	collect := func(m map[*ssa.BasicBlock][]*Node) {
		for b, ns := range m {
			exits[b] = append(exits[b], ns...)
		}
	}

	cur := x.merge(entry, live)

	// iterate while the loop condition is decided
	for i := 0; i < x.maxUnrol && len(cur) > 0; i++ {
		var ready, rest []*Node

		for _, n := range cur {
			if e.decided(n, l) {
				ready = append(ready, n)
			} else {
				rest = append(rest, n)
			}
		}

		if len(ready) == 0 {
			break
		}

		back, ex := e.region(l, map[*ssa.BasicBlock][]*Node{l.header: ready})
		collect(ex)

		cur = x.merge(append(rest, back...), live)
	}

	// the first iterations one by one, where that is asked for
	for i := 0; i < x.peel && len(cur) > 0; i++ {
		var back []*Node

		for _, n := range cur {
			b, ex := e.region(l, map[*ssa.BasicBlock][]*Node{l.header: {n}})
			collect(ex)

			back = append(back, b...)
		}

		cur = x.merge(back, live)
	}

	for _, n := range cur {
		collect(e.fixpoint(l, n, live))
	}

	return exits
}

// latchTest is the test at the end of a loop, which has none at its beginning, with
// what computes its condition, if that only depends on what is known there.
func latchTest(l *loop) (*ssa.If, []ssa.Instruction) {
	if iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); ok && !(l.body[l.header.Succs[0]] && l.body[l.header.Succs[1]]) {
		if iff.Block() != l.header || !inLatch(l, l.header) {
			return nil, nil
		}
	}

	var latch *ssa.BasicBlock

	for _, b := range l.header.Preds {
		if l.body[b] {
			if latch != nil {
				return nil, nil
			}

			latch = b
		}
	}

	if latch == nil {
		return nil, nil
	}

	iff, ok := latch.Instrs[len(latch.Instrs)-1].(*ssa.If)
	if !ok || l.body[latch.Succs[0]] && l.body[latch.Succs[1]] {
		return nil, nil
	}

	var ins []ssa.Instruction

	var need func(v ssa.Value) bool

	need = func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		if !ok || !l.body[in.Block()] {
			return true
		}

		switch in := in.(type) {
		case *ssa.Phi:
			return in.Block() == l.header
		case *ssa.BinOp:
			if !need(in.X) || !need(in.Y) {
				return false
			}
		case *ssa.Convert:
			if !need(in.X) {
				return false
			}
		default:
			return false
		}

		ins = append(ins, in)

		return true
	}

	if !need(iff.Cond) {
		return nil, nil
	}

	return iff, ins
}

// inLatch reports that a block ends the loop's iterations.
func inLatch(l *loop, b *ssa.BasicBlock) bool {
	for _, q := range l.header.Preds {
		if q == b {
			return true
		}
	}

	return false
}

// justValue reports that a function only computes a value.
func justValue(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) != 1 {
		return false
	}

	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.Alloc:
			if in.Heap {
				return false
			}
		case *ssa.Store:
			// parameters are kept in variables
			if _, ok := in.Addr.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr, *ssa.Return, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
		default:
			return false
		}
	}

	return true
}

// decided reports that the condition of the header is known.
func (e *fexec) decided(n *Node, l *loop) bool {
	if iff, ins := latchTest(l); iff != nil {
		e.x.quiet++
		defer func() { e.x.quiet-- }()

		ns := []*Node{n.fork()}
		for _, in := range ins {
			if ns = e.instr(ns[0], in); len(ns) != 1 {
				return false
			}
		}

		return ns[0].st.decide(boolOf(e.val(ns[0], iff.Cond))) >= 0
	}

	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok || (l.body[l.header.Succs[0]] && l.body[l.header.Succs[1]]) {
		return false
	}

	for _, in := range l.header.Instrs {
		if c, ok := in.(ssa.CallInstruction); ok {
			if _, bi := c.Common().Value.(*ssa.Builtin); !bi && !justValue(c.Common().StaticCallee()) {
				return false
			}
		}
	}

	e.x.quiet++
	defer func() { e.x.quiet-- }()

	ns := []*Node{n.fork()}
	for _, in := range l.header.Instrs[:len(l.header.Instrs)-1] {
		if len(ns) != 1 {
			return false
		}

		if _, ok := in.(*ssa.Phi); ok {
			continue
		}

		if nx, ok := in.(*ssa.Next); ok {
			if d, _ := e.nextDecided(ns[0], nx); !d {
				return false
			}
		}

		ns = e.instr(ns[0], in)
	}

	if len(ns) != 1 {
		return false
	}

	return ns[0].st.decide(boolOf(e.val(ns[0], iff.Cond))) >= 0
}

var dbgLoop = os.Getenv("DBGLOOP") != ""

func (e *fexec) fixpoint(l *loop, entry *Node, live func(ssa.Value) bool) map[*ssa.BasicBlock][]*Node {
	x := e.x
	heads := map[string]*Node{}

	var order []string

	key := func(n *Node) string {
		if x.partition != nil {
			return n.st.ghost + "/" + x.partition(n, live)
		}

		return n.st.ghost
	}
	k0 := key(entry)
	heads[k0] = entry
	order = append(order, k0)
	counts := map[string]int{}

	saved := len(e.outs)
	x.quiet++

	runAll := func() []*Node {
		var back []*Node

		for i := 0; i < len(order); i++ {
			b, _ := e.region(l, map[*ssa.BasicBlock][]*Node{l.header: {heads[order[i]].fork()}})
			back = append(back, b...)
		}

		e.outs = e.outs[:saved]

		return x.merge(back, live)
	}

	for iter := 0; ; iter++ {
		if iter > 60 {
			panic("no fixpoint in " + e.fr.fn.String())
		}

		changed := false

		for _, b := range runAll() {
			k := key(b)

			h, ok := heads[k]
			if !ok {
				heads[k] = b
				order = append(order, k)
				changed = true

				continue
			}

			if ok, why := includes(h, b, live); !ok {
				if x.trace {
					fmt.Printf("%sloop %s %s: %s\n", strings.Repeat(" ", e.fr.depth), fname(e.fr.fn), x.p.pos(instrPos(l.header.Instrs[len(l.header.Instrs)-1])), why)
					if dbgLoop {
						for k, v := range h.env {
							if live(k) {
								fmt.Println("    ", k.Name(), valKey(v), "<-", valKey(b.env[k]))
							}
						}
						for id, o := range h.st.heap {
							fmt.Println("    ", id, o.name, string(o.kind), o.term, o.conc, o.known, o.size)
						}
						fmt.Println("    ", facts(h.st))
					}
				}

				mode := joinLoop
				if counts[k] >= 3 {
					mode = joinWiden
				}

				counts[k]++
				heads[k] = joinNodes(h, b, live, mode)
				changed = true
			}
		}

		if !changed {
			break
		}
	}

	// narrowing: the heads are the entry and what one more iteration gives
	for pass := 0; pass < 2; pass++ {
		nh := map[string]*Node{k0: entry}

		var no []string

		no = append(no, k0)

		for _, b := range runAll() {
			k := key(b)
			if h, ok := nh[k]; ok {
				if in, _ := includes(h, b, live); !in {
					nh[k] = joinNodes(h, b, live, joinLoop)
				}
			} else {
				nh[k] = b
				no = append(no, k)
			}
		}

		heads, order = nh, no
	}

	x.quiet--

	// the states found are an invariant: interpret the body with them once more
	exits := map[*ssa.BasicBlock][]*Node{}

	for _, k := range order {
		_, ex := e.region(l, map[*ssa.BasicBlock][]*Node{l.header: {heads[k]}})
		for b, ns := range ex {
			exits[b] = append(exits[b], ns...)
		}
	}

	return exits
}

// block interprets a block and hands the states to its successors.
func (e *fexec) block(n *Node, b *ssa.BasicBlock, deliver func(*Node, *ssa.BasicBlock)) {
	nodes := []*Node{n}

	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}

		var next []*Node
		for _, n := range nodes {
			next = append(next, e.instr(n, in)...)
		}

		if len(next) > e.x.maxNodes {
			next = e.x.merge(next, nil)
		}

		nodes = next
		if len(nodes) == 0 {
			return
		}
	}

	for _, n := range nodes {
		e.term(n, b, deliver)
	}
}

// edge evaluates the phis of an edge.
func (e *fexec) edge(n *Node, from, to *ssa.BasicBlock) *Node {
	pi := -1

	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}

	vals := map[ssa.Value]Val{}

	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}

		vals[ph] = e.val(n, ph.Edges[pi])
	}

	live := e.li.live[to]
	env := make(map[ssa.Value]Val, len(live))

	for v := range live {
		if w, ok := vals[v]; ok {
			env[v] = w
		} else if w, ok := n.env[v]; ok {
			env[v] = w
		}
	}

	return &Node{st: n.st, env: env, defers: n.defers}
}

func (e *fexec) term(n *Node, b *ssa.BasicBlock, deliver func(*Node, *ssa.BasicBlock)) {
	e.x.step()

	switch in := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Jump:
		deliver(e.edge(n, b, b.Succs[0]), b.Succs[0])
	case *ssa.If:
		c := boolOf(e.val(n, in.Cond))

		switch n.st.decide(c) {
		case 1:
			deliver(e.edge2(n, b, 0), b.Succs[0])
		case 0:
			deliver(e.edge2(n, b, 1), b.Succs[1])
		default:
			t := n.fork()
			if t.st.assume(c) {
				deliver(e.edge2(t, b, 0), b.Succs[0])
			}

			if n.st.assume(bNot(c)) {
				deliver(e.edge2(n, b, 1), b.Succs[1])
			}
		}
	case *ssa.Return:
		var vals []Val
		for _, r := range in.Results {
			vals = append(vals, e.val(n, r))
		}

		e.outs = append(e.outs, Outcome{st: n.st, vals: vals})
	case *ssa.Panic:
		v := e.val(n, in.X)
		n.st.panic = v

		if e.x.trace && e.x.quiet == 0 {
			fmt.Fprintln(os.Stderr, "PANIC", e.x.p.pos(in.Pos()), showVal(v), e.fr.path(e.x.p), n.st.infeasible())

			for _, l := range n.st.cons {
				fmt.Fprintln(os.Stderr, "    ", l, ">= 0")
			}

			fmt.Fprintln(os.Stderr, "    facts", n.st.facts)
		}

		e.unwind(n)
	default:
		panic(fmt.Sprintf("terminator %T", in))
	}
}

// edge2 is the edge to successor k; both may be the same block.
func (e *fexec) edge2(n *Node, b *ssa.BasicBlock, k int) *Node {
	to := b.Succs[k]
	if b.Succs[0] != b.Succs[1] {
		return e.edge(n, b, to)
	}

	seen := 0
	pi := -1

	for i, p := range to.Preds {
		if p == b {
			if seen == k {
				pi = i
			}

			seen++
		}
	}

	vals := map[ssa.Value]Val{}

	for _, in := range to.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			vals[ph] = e.val(n, ph.Edges[pi])
		}
	}

	r := e.edge(n, b, to)
	for v, w := range vals {
		r.env[v] = w
	}

	return r
}

// unwind runs the deferred calls of a panicking function.
func (e *fexec) unwind(n *Node) {
	for n.defers != nil {
		d := n.defers
		n.defers = d.next

		outs := e.x.callVal(e.fr, n.st, d.instr, d.fn, d.args, true)

		var keep []*Node

		for _, o := range outs {
			m := &Node{st: o.st, env: n.env, defers: n.defers}
			if o.panic {
				keep = append(keep, m)
				continue
			}

			if o.st.panic == nil {
				e.recovered(m)
				continue
			}

			keep = append(keep, m)
		}

		if len(keep) == 0 {
			return
		}

		for _, m := range keep[1:] {
			m.env = copyEnv(m.env)
			e.unwind(m)
		}

		n = keep[0]
	}

	e.outs = append(e.outs, Outcome{st: n.st, panic: true})
}

func copyEnv(env map[ssa.Value]Val) map[ssa.Value]Val {
	r := make(map[ssa.Value]Val, len(env))
	for k, v := range env {
		r[k] = v
	}

	return r
}

// recovered runs the remaining deferred calls and returns.
func (e *fexec) recovered(n *Node) {
	for _, m := range e.runDefers(n) {
		fn := e.fr.fn
		if fn.Recover == nil {
			var vals []Val
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				vals = append(vals, e.x.zeroVal(fn.Signature.Results().At(i).Type()))
			}

			e.outs = append(e.outs, Outcome{st: m.st, vals: vals})

			continue
		}

		nodes := []*Node{m}

		for _, in := range fn.Recover.Instrs[:len(fn.Recover.Instrs)-1] {
			var next []*Node
			for _, k := range nodes {
				next = append(next, e.instr(k, in)...)
			}

			nodes = next
		}

		for _, k := range nodes {
			e.term(k, fn.Recover, nil)
		}
	}
}

// runDefers runs the deferred calls at a normal return.
func (e *fexec) runDefers(n *Node) []*Node {
	nodes := []*Node{n}

	for {
		var next []*Node

		more := false

		for _, n := range nodes {
			if n.defers == nil {
				next = append(next, n)
				continue
			}

			more = true
			d := n.defers

			outs := e.x.callVal(e.fr, n.st, d.instr, d.fn, d.args, true)
			for _, o := range outs {
				m := &Node{st: o.st, env: copyEnv(n.env), defers: d.next}
				if o.panic {
					e.unwind(m)
					continue
				}

				next = append(next, m)
			}
		}

		nodes = next
		if !more {
			return nodes
		}

		if len(nodes) > e.x.maxNodes {
			nodes = e.x.merge(nodes, nil)
		}
	}
}

func (x *Interp) step() {
	x.steps++
	if x.steps%256 == 0 && !x.deadline.IsZero() && time.Now().After(x.deadline) {
		panic("out of time")
	}

	if x.steps > x.maxSteps {
		panic("the analysis ran out of its budget of steps")
	}
}

func (x *Interp) noteOnce(s string) { x.notes[s] = true }

// val evaluates an operand.
func (e *fexec) val(n *Node, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.x.constVal(v)
	case *ssa.Function:
		return Fun{nil_: bddFalse, fn: v}
	case *ssa.Global:
		return Ptr{obj: e.x.global(v), nil_: bddFalse}
	case *ssa.Builtin:
		return Fun{nil_: bddFalse, term: "builtin." + v.Name()}
	}

	w, ok := n.env[v]
	if !ok {
		panic(fmt.Sprintf("no value of %s = %s in %s", v.Name(), v, e.fr.fn))
	}

	return w
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

var _ = token.NoPos
