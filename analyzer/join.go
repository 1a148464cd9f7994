package main

import (
	"cmp"
	"fmt"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Node is a state inside of a function: the state, the registers and the
// deferred calls.
type Node struct {
	st     *State
	env    map[ssa.Value]Val
	defers *deferList
}

type deferList struct {
	instr *ssa.Defer
	fn    Val
	args  []Val
	next  *deferList
	n     int
}

func (n *Node) fork() *Node {
	env := make(map[ssa.Value]Val, len(n.env))
	for k, v := range n.env {
		env[k] = v
	}

	return &Node{st: n.st.fork(), env: env, defers: n.defers}
}

const joinPrefix = "J!"

func joinName() string { return freshName(joinPrefix) }

func isJoinTerm(t string) bool {
	return strings.HasPrefix(t, joinPrefix) && !strings.ContainsAny(t, "[.(")
}

var joinObjs = map[ObjID]bool{}

type numPair struct {
	o, n Lin
	j    Sym
}

type boolPair struct {
	o, n *bdd
	a    int
}

type joiner struct {
	o, n  *State
	res   *State
	nums  []numPair
	numK  map[string]Sym
	bools []boolPair
	boolK map[[2]int]int
	objs  map[[2]ObjID]ObjID
	strs  map[string]string
}

func newJoiner(o, n *State) *joiner {
	r := o.fork()

	return &joiner{o: o, n: n, res: r, numK: map[string]Sym{}, boolK: map[[2]int]int{}, objs: map[[2]ObjID]ObjID{}, strs: map[string]string{}}
}

func (j *joiner) lin(a, b Lin) Lin {
	if a.eq(b) {
		return a
	}

	k := a.key() + "/" + b.key()
	if s, ok := j.numK[k]; ok {
		return linS(s)
	}

	s := symOf(joinName())
	syms[s].bindable = true
	j.numK[k] = s
	j.nums = append(j.nums, numPair{a, b, s})

	return linS(s)
}

func (j *joiner) boo(a, b *bdd) *bdd {
	if a == b {
		return a
	}

	k := [2]int{a.id, b.id}
	if x, ok := j.boolK[k]; ok {
		return bddVar(x)
	}

	x := atomOf(joinName())
	atoms[x].bindable = true
	j.boolK[k] = x
	j.bools = append(j.bools, boolPair{a, b, x})

	return bddVar(x)
}

func (j *joiner) term(a, b string) string {
	if a == b {
		return a
	}

	k := a + "\x00" + b
	if t, ok := j.strs[k]; ok {
		return t
	}

	t := joinName()
	j.strs[k] = t

	return t
}

func (j *joiner) val(a, b Val) Val {
	if a == nil || b == nil {
		return nil
	}

	if valEq(a, b) && !hasObj(a) {
		return a
	}

	switch a := a.(type) {
	case Num:
		if b, ok := b.(Num); ok {
			return Num{j.lin(a.l, b.l)}
		}
	case Boo:
		if b, ok := b.(Boo); ok {
			return Boo{j.boo(a.b, b.b)}
		}
	case BV:
		if b, ok := b.(BV); ok && len(a.bits) == len(b.bits) {
			r := BV{make([]*bdd, len(a.bits))}
			for i := range r.bits {
				r.bits[i] = j.boo(a.bits[i], b.bits[i])
			}

			return r
		}
	case Str:
		if b, ok := b.(Str); ok {
			return Str{[]strPart{{term: j.term(a.key(), b.key())}}}
		}
	case Flt:
		if b, ok := b.(Flt); ok {
			r := Flt{term: j.term(a.term, b.term)}
			if a.lo != nil && b.lo != nil {
				l := j.lin(*a.lo, *b.lo)
				r.lo = &l
			}

			if a.hi != nil && b.hi != nil {
				l := j.lin(*a.hi, *b.hi)
				r.hi = &l
				r.open = a.open && b.open
			}

			return r
		}
	case Tup:
		if b, ok := b.(Tup); ok && len(a.fs) == len(b.fs) {
			r := Tup{make([]Val, len(a.fs))}
			for i := range r.fs {
				r.fs[i] = j.val(a.fs[i], b.fs[i])
			}

			return r
		}
	case Ptr:
		b, ok := b.(Ptr)
		if !ok {
			break
		}

		nb := j.boo(a.nil_, b.nil_)

		switch {
		case a.obj == 0:
			b.nil_ = nb
			return b
		case b.obj == 0:
			a.nil_ = nb
			return a
		case a.path == b.path && (a.idx == nil) == (b.idx == nil):
			r := Ptr{obj: j.obj(a.obj, b.obj), path: a.path, nil_: nb}
			if a.idx != nil {
				l := j.lin(*a.idx, *b.idx)
				r.idx = &l
			}

			return r
		}

		return Ptr{obj: j.opaqueObj(a, b), nil_: nb}
	case Slc:
		b, ok := b.(Slc)
		if !ok {
			break
		}

		r := Slc{off: j.lin(a.off, b.off), len: j.lin(a.len, b.len), cap: j.lin(a.cap, b.cap), nil_: j.boo(a.nil_, b.nil_)}

		switch {
		case a.obj == 0:
			r.obj = b.obj
			r.off = b.off
		case b.obj == 0:
			r.obj = a.obj
			r.off = a.off
		default:
			r.obj = j.obj(a.obj, b.obj)
		}

		return r
	case Ifc:
		b, ok := b.(Ifc)
		if !ok {
			break
		}

		nb := j.boo(a.nil_, b.nil_)

		switch {
		case a.nil_ == bddTrue:
			b.nil_ = nb
			return b
		case b.nil_ == bddTrue:
			a.nil_ = nb
			return a
		}

		errs := ""

		for _, e := range strings.Split(a.errs, ",") {
			if e != "" && strings.Contains(b.errs, ","+e+",") {
				errs += "," + e + ","
			}
		}

		if a.typ != nil && b.typ != nil && a.typ == b.typ {
			return Ifc{nil_: nb, typ: a.typ, val: j.val(a.val, b.val), errs: errs}
		}

		return Ifc{nil_: nb, term: j.term("i"+valKey(a), "i"+valKey(b)), errs: errs}
	case Fun:
		b, ok := b.(Fun)
		if !ok {
			break
		}

		nb := j.boo(a.nil_, b.nil_)

		switch {
		case a.nil_ == bddTrue:
			b.nil_ = nb
			return b
		case b.nil_ == bddTrue:
			a.nil_ = nb
			return a
		case a.fn != nil && a.fn == b.fn && len(a.binds) == len(b.binds):
			r := Fun{nil_: nb, fn: a.fn}
			for i := range a.binds {
				r.binds = append(r.binds, j.val(a.binds[i], b.binds[i]))
			}

			return r
		}

		return Fun{nil_: nb, term: j.term("F"+valKey(a), "F"+valKey(b))}
	case Ref:
		b, ok := b.(Ref)
		if !ok {
			break
		}

		nb := j.boo(a.nil_, b.nil_)

		switch {
		case a.nil_ == bddTrue:
			b.nil_ = nb
			return b
		case b.nil_ == bddTrue:
			a.nil_ = nb
			return a
		}

		if a.obj == b.obj {
			return Ref{nil_: nb, obj: a.obj, term: j.term(a.term, b.term)}
		}

		return Ref{nil_: nb, term: joinName()}
	}

	return Opq{j.term("v"+valKey(a), "v"+valKey(b))}
}

func hasObj(v Val) bool {
	switch v := v.(type) {
	case Ptr:
		return v.obj != 0
	case Slc:
		return v.obj != 0
	case Tup:
		for _, f := range v.fs {
			if hasObj(f) {
				return true
			}
		}
	case Ifc:
		return v.typ != nil && hasObj(v.val)
	case Fun:
		return len(v.binds) > 0
	case Ref:
		return v.obj != 0
	}

	return false
}

// obj joins two different objects into a new one.
func (j *joiner) obj(a, b ObjID) ObjID {
	if a == b {
		return a
	}

	k := [2]ObjID{a, b}
	if id, ok := j.objs[k]; ok {
		return id
	}

	oa, ob := j.o.obj(a), j.n.obj(b)
	if oa == nil || ob == nil || oa.kind != ob.kind || oa.typ.String() != ob.typ.String() {
		id := nextObj
		nextObj++
		joinObjs[id] = true
		j.objs[k] = id

		if oa != nil {
			n := &Obj{typ: oa.typ, kind: oa.kind, term: joinName(), name: "joined", sealed: true}
			if n.kind == 'v' {
				n.val = j.res.x.fresh(j.res, oa.typ, joinName())
			}

			j.res.heap[id] = n
		}

		return id
	}

	id := nextObj
	nextObj++
	joinObjs[id] = true
	j.objs[k] = id
	n := j.content(oa, ob)
	n.sealed = n.sealed || j.res.x.lazyInfo[a] != nil || j.res.x.lazyInfo[b] != nil
	j.res.heap[id] = n

	return id
}

func (j *joiner) opaqueObj(a, b Ptr) ObjID {
	id := nextObj
	nextObj++
	joinObjs[id] = true

	return id
}

func (j *joiner) content(a, b *Obj) *Obj {
	n := &Obj{typ: a.typ, kind: a.kind, name: a.name, sealed: a.sealed || b.sealed}

	switch a.kind {
	case 'v':
		n.val = j.val(a.val, b.val)
	case 'a':
		switch {
		case a.conc && b.conc && len(a.elems) == len(b.elems):
			n.conc = true
			n.size = a.size
			n.elems = make([]Val, len(a.elems))

			for i := range n.elems {
				n.elems[i] = j.val(a.elems[i], b.elems[i])
			}
		case !a.conc && !b.conc && a.zero == b.zero && a.term == b.term && len(a.known) == 0 && len(b.known) == 0:
			n.zero, n.term = a.zero, a.term
			n.pos = meetPos(j.o.objPos(a), j.n.objPos(b))
		default:
			n.pos = meetPos(j.o.objPos(a), j.n.objPos(b))

			if a.conc || b.conc {
				n.term = joinName()
			} else {
				n.term = j.term(a.term, b.term)
			}

			if !a.conc && !b.conc {
				n.zero = a.zero && b.zero

				n.known, n.kidx = map[string]Val{}, map[string]Lin{}

				for _, k := range inOrder(a.known) {
					v := a.known[k]
					if w, ok := b.known[k]; ok {
						n.known[k] = j.val(v, w)
						n.kidx[k] = a.kidx[k]
					} else {
						n.zero = false
					}
				}

				for k := range b.known {
					if _, ok := a.known[k]; !ok {
						n.zero = false
					}
				}

				if a.zero && b.zero && !n.zero {
					n.term = joinName()
				}
			}
		}
	case 'm':
		n.term = joinName()
	}

	return n
}

func sameObj(a, b *Obj) bool {
	if a == b {
		return true
	}

	if a.kind != b.kind || a.conc != b.conc || len(a.elems) != len(b.elems) || a.term != b.term || a.zero != b.zero || len(a.known) != len(b.known) ||
		len(a.keys) != len(b.keys) || len(a.pos) != len(b.pos) {
		return false
	}

	for k := range a.pos {
		if !b.pos[k] {
			return false
		}
	}

	if a.kind == 'v' {
		return valEq(a.val, b.val)
	}

	for i := range a.elems {
		if !valEq(a.elems[i], b.elems[i]) {
			return false
		}
	}

	for i := range a.keys {
		if !valEq(a.keys[i], b.keys[i]) {
			return false
		}
	}

	for _, k := range inOrder(a.known) {
		v := a.known[k]
		w, ok := b.known[k]
		if !ok || !valEq(v, w) {
			return false
		}
	}

	return true
}

type joinMode int

const (
	joinExact joinMode = iota // at a merge: keep the disjunction
	joinLoop                  // at a loop head: look for invariants
	joinWiden                 // at a loop head: keep the invariants there are
)

// joinNodes joins two states at the same place. The ghosts are the same.
func joinNodes(a, b *Node, live func(ssa.Value) bool, mode joinMode) *Node {
	j := newJoiner(a.st, b.st)
	res := &Node{st: j.res, env: map[ssa.Value]Val{}, defers: a.defers}

	for _, k := range byName(a.env) {
		v := a.env[k]
		if live != nil && !live(k) {
			continue
		}

		if w, ok := b.env[k]; ok {
			res.env[k] = j.val(v, w)
		}
	}

	for _, id := range inOrder(b.st.heap) {
		ob := b.st.heap[id]
		oa, ok := a.st.heap[id]
		if !ok {
			// read in one state only: the other one has not looked at it
			if b.st.x.lazyInfo[id] != nil {
				oa = a.st.obj(id)
			}

			if oa == nil {
				j.res.heap[id] = ob
				continue
			}
		}

		if !sameObj(oa, ob) {
			j.res.heap[id] = j.content(oa, ob)
		}
	}

	for _, id := range inOrder(a.st.heap) {
		oa := a.st.heap[id]
		if _, ok := b.st.heap[id]; !ok && a.st.x.lazyInfo[id] != nil {
			ob := b.st.obj(id)
			if !sameObj(oa, ob) {
				j.res.heap[id] = j.content(oa, ob)
			}
		}
	}

	if len(a.st.gv) > 0 {
		j.res.gv = map[string]Val{}
		for _, k := range inOrder(a.st.gv) {
			v := a.st.gv[k]
			if w, ok := b.st.gv[k]; ok {
				j.res.gv[k] = j.val(v, w)
			}
		}
	}

	if a.st.panic != nil && b.st.panic != nil {
		j.res.panic = j.val(a.st.panic, b.st.panic)
	}

	j.constraints(mode)

	return res
}

// reduce rewrites an expression with the equalities of a state, so that it
// refers to fewer joined values.
func (st *State) reduce(d Lin) Lin {
	joined := func(l Lin) int {
		n := 0
		for _, t := range l.t {
			if syms[t.s].bindable {
				n++
			}
		}

		return n
	}

	for round := 0; round < 3; round++ {
		best := joined(d)
		if best == 0 {
			return d
		}

		next := d

		for _, c := range st.cons {
			if len(c.t) > 6 || !st.ckeys[c.neg().key()] {
				continue
			}

			for _, e := range []Lin{d.add(c), d.sub(c)} {
				if n := joined(e); n < best {
					best, next = n, e
				}
			}
		}

		if next.eq(d) {
			return d
		}

		d = next
	}

	return d
}

// more keeps what either state knows of its own values for the joined ones, if
// it holds in the other one too.
func (j *joiner) more(toO, toN map[Sym]Lin) {
	o, n, r := j.o, j.n, j.res
	fromO, fromN := map[Sym]Lin{}, map[Sym]Lin{}

	for _, p := range j.nums {
		if s, ok := p.o.isSym(); ok {
			if _, dup := fromO[s]; !dup {
				fromO[s] = linS(p.j)
			}
		}

		if s, ok := p.n.isSym(); ok {
			if _, dup := fromN[s]; !dup {
				fromN[s] = linS(p.j)
			}
		}
	}

	try := func(cons []Lin, from map[Sym]Lin) {
		for _, c := range cons {
			c2 := c.subst(from)
			if c2.eq(c) || r.ckeys[c2.normGE().key()] {
				continue
			}

			if o.proves(c2.subst(toO)) && n.proves(c2.subst(toN)) {
				r.addCons(c2)
			}
		}
	}

	try(o.cons, fromO)
	try(n.cons, fromN)
}

func (j *joiner) constraints(mode joinMode) {
	o, n, r := j.o, j.n, j.res
	r.cons = nil
	r.ckeys = map[string]bool{}

	toO, toN := map[Sym]Lin{}, map[Sym]Lin{}
	fromO, fromN := map[Sym]Lin{}, map[Sym]Lin{}

	for _, p := range j.nums {
		toO[p.j] = p.o
		toN[p.j] = p.n

		if s, ok := p.o.isSym(); ok && syms[s].bindable {
			if _, dup := fromO[s]; !dup {
				fromO[s] = linS(p.j)
			}
		}

		for _, t := range p.n.t {
			if syms[t.s].bindable && (t.k == 1 || t.k == -1) {
				if _, dup := fromN[t.s]; !dup {
					// p.n = k*s + rest  =>  s = k*(j - rest)
					rest := p.n.sub(Lin{t: []term{t}})
					fromN[t.s] = linS(p.j).sub(rest).mulC(t.k)
				}

				break
			}
		}
	}

	for _, c := range o.cons {
		if n.ckeys[c.key()] {
			r.addCons(c)
		}
	}

	for _, c := range o.cons {
		c2 := c.subst(fromO)
		if r.ckeys[c.key()] && (mode == joinExact || c2.eq(c)) {
			continue
		}

		if n.proves(c2.subst(toN)) && (mode != joinExact || o.proves(c2.subst(toO))) {
			r.addCons(c2)
		}

		if !c2.eq(c) && n.proves(c) {
			r.addCons(c)
		}
	}

	if r.x.joinMore && mode != joinWiden {
		j.more(toO, toN)
	}

	if mode != joinWiden {
		for _, c := range n.cons {
			if r.ckeys[c.key()] || o.ckeys[c.key()] {
				continue
			}

			c2 := c.subst(fromN)
			if !r.ckeys[c2.normGE().key()] && o.proves(c2.subst(toO)) && n.proves(c2.subst(toN)) {
				r.addCons(c2)
			}
		}

		for _, p := range j.nums {
			jl := linS(p.j)

			for _, c := range []Lin{jl.sub(p.o), p.o.sub(jl), jl.sub(p.n), p.n.sub(jl)} {
				if n.proves(c.subst(toN)) && o.proves(c.subst(toO)) {
					r.addCons(c)
				}
			}

			if mode == joinLoop {
				// a bound of the first value that becomes a bound of all
				if _, ok := p.n.isConst(); ok {
					for _, c := range n.cons {
						if o.ckeys[c.key()] || len(c.t) == 0 || len(c.t) > 3 {
							continue
						}

						c2 := c.add(p.n).sub(jl)
						if o.proves(c2.subst(toO)) && n.proves(c2.subst(toN)) {
							r.addCons(c2)
						}
					}
				}

				if c := jl.neg(); n.proves(c.subst(toN)) && o.proves(c.subst(toO)) {
					r.addCons(c)
				}
			}

			if n.proves(p.n) && o.proves(p.o) {
				r.addCons(jl)
			}
		}

		if len(j.nums) <= 14 {
			for i, p := range j.nums {
				for _, q := range j.nums[i+1:] {
					if d := o.reduce(p.o.sub(q.o)); d.eq(n.reduce(p.n.sub(q.n))) {
						e := linS(p.j).sub(linS(q.j)).sub(d)
						r.addCons(e)
						r.addCons(e.neg())

						continue
					}

					if d := o.reduce(p.o.add(q.o)); d.eq(n.reduce(p.n.add(q.n))) {
						e := linS(p.j).add(linS(q.j)).sub(d)
						r.addCons(e)
						r.addCons(e.neg())

						continue
					}

					for _, c := range []Lin{linS(p.j).sub(linS(q.j)), linS(q.j).sub(linS(p.j))} {
						if n.provesQuick(c.subst(toN)) && o.provesQuick(c.subst(toO)) {
							r.addCons(c)
						}
					}
				}
			}
		}
	}

	if r.x.coarse {
		r.facts = commonLits(o.facts, n.facts)
		r.settle()

		return
	}

	fo, fn := o.facts, n.facts

	switch mode {
	case joinExact:
		if len(j.nums) <= 6 {
			for _, p := range j.nums {
				fo = bAnd(fo, bEQ(linS(p.j).sub(p.o)))
				fn = bAnd(fn, bEQ(linS(p.j).sub(p.n)))
			}
		}

		k := 0
		for _, c := range o.cons {
			if !r.ckeys[c.key()] && k < r.x.joinCons {
				fo = bAnd(fo, bGE(c))
				k++
			}
		}

		k = 0
		for _, c := range n.cons {
			if !r.ckeys[c.key()] && k < r.x.joinCons {
				fn = bAnd(fn, bGE(c))
				k++
			}
		}
	default:
		// atoms that stand for joined values keep their role
		sub := map[int]*bdd{}

		for _, p := range j.bools {
			if len(bddSupport(p.o)) == 1 && p.o == bddVar(p.o.atom) && atoms[p.o.atom].bindable {
				if _, dup := sub[p.o.atom]; !dup {
					sub[p.o.atom] = bddVar(p.a)
				}
			}
		}

		fo = substFacts(fo, fromO, sub)
		// what the constraints of the new state settle
		in := map[int]bool{}

		for _, a := range bddSupport(fn) {
			in[a] = true
		}

		for _, a := range bddSupport(fo) {
			l := atoms[a].num
			if l == nil || in[a] {
				continue
			}

			if v := l.subst(toN); n.provesQuick(v) {
				fn = bAnd(fn, bddVar(a))
			} else if n.provesQuick(v.neg().addConst(-1)) {
				fn = bAnd(fn, bNot(bddVar(a)))
			}
		}
	}

	for _, p := range j.bools {
		fo = bAnd(fo, bIff(bddVar(p.a), p.o))
		fn = bAnd(fn, bIff(bddVar(p.a), p.n))
	}

	r.facts = bOr(fo, fn)

	if mode == joinWiden {
		keep := map[int]bool{}
		for _, a := range bddSupport(o.facts) {
			keep[a] = true
		}

		for _, p := range j.bools {
			keep[p.a] = true
		}

		for _, a := range bddSupport(fo) {
			keep[a] = true
		}

		r.facts = bddExists(r.facts, func(a int) bool { return !keep[a] })
	}

	r.trim()
}

// literals are the atoms a function fixes, seen from its top.
func literals(f *bdd) map[int]bool {
	out := map[int]bool{}

	for !f.isConst() {
		switch {
		case f.lo == bddFalse:
			out[f.atom] = true
			f = f.hi
		case f.hi == bddFalse:
			out[f.atom] = false
			f = f.lo
		default:
			return out
		}
	}

	return out
}

// commonLits are the literals that hold in both.
func commonLits(f, g *bdd) *bdd {
	r := bddTrue
	b := literals(g)

	for k, v := range literals(f) {
		if w, ok := b[k]; ok && w == v {
			l := bddVar(k)
			if !v {
				l = bNot(l)
			}

			r = bAnd(r, l)
		}
	}

	return r
}

// trim forgets the oldest atoms when the facts grow too large.
func (st *State) trim() {
	for bddSize(st.facts) > st.x.factLimit {
		sup := bddSupport(st.facts)
		cut := sup[0]
		st.facts = bddExists(st.facts, func(a int) bool { return a == cut })
		st.x.trimmed++
	}

	st.settle()
}

// substFacts replaces symbols in the numeric atoms and atoms by others.
func substFacts(f *bdd, m map[Sym]Lin, sub map[int]*bdd) *bdd {
	if f.isConst() {
		return f
	}

	all := map[int]*bdd{}
	for k, v := range sub {
		all[k] = v
	}

	for _, a := range bddSupport(f) {
		if n := atoms[a].num; n != nil {
			l := n.subst(m)
			if !l.eq(*n) {
				all[a] = bGE(l)
			}
		}
	}

	if len(all) == 0 {
		return f
	}

	return bddSubst(f, all)
}

// ---------------------------------------------------------------------------
// inclusion

type matcher struct {
	o, n   *State
	num    map[Sym]Lin
	atom   map[int]*bdd
	str    map[string]string
	obj    map[ObjID]ObjID
	laterN [][2]Lin
	laterB [][2]*bdd
	why    string
}

func (m *matcher) fail(format string, a ...any) bool {
	m.why = fmt.Sprintf(format, a...)
	return false
}

func (m *matcher) lin(o, n Lin) bool {
	if s, ok := o.isSym(); ok && syms[s].bindable {
		if _, ok := m.num[s]; ok {
			m.laterN = append(m.laterN, [2]Lin{o, n})
		} else {
			m.num[s] = n
		}

		return true
	}

	if !o.eq(n) || len(o.t) > 0 {
		m.laterN = append(m.laterN, [2]Lin{o, n})
	}

	return true
}

func (m *matcher) boo(o, n *bdd) bool {
	if !o.isConst() && o == bddVar(o.atom) && atoms[o.atom].bindable {
		if _, ok := m.atom[o.atom]; !ok {
			m.atom[o.atom] = n
			return true
		}
	}

	if o != n || !o.isConst() {
		m.laterB = append(m.laterB, [2]*bdd{o, n})
	}

	return true
}

func (m *matcher) term(o, n string) bool {
	if o == n {
		return true
	}

	if !isJoinTerm(o) {
		return m.fail("%s is not %s", n, o)
	}

	if t, ok := m.str[o]; ok {
		return t == n
	}

	m.str[o] = n

	return true
}

func (m *matcher) objs(o, n ObjID) bool {
	if o == 0 || n == 0 {
		return o == n
	}

	if t, ok := m.obj[o]; ok {
		return t == n
	}

	if o == n {
		m.obj[o] = n
	} else if !joinObjs[o] {
		return m.fail("object %d is not %d", n, o)
	} else {
		m.obj[o] = n
	}

	a, b := m.o.obj(o), m.n.obj(n)
	if a == nil || b == nil {
		return a == b
	}

	return m.content(a, b)
}

func (m *matcher) content(a, b *Obj) bool {
	if a == b && (a.kind != 'v' || !hasObj(a.val)) && !a.conc {
		return true
	}

	if a.kind != b.kind {
		return false
	}

	switch a.kind {
	case 'v':
		return m.val(a.val, b.val)
	case 'a':
		if a.conc {
			if !b.conc || len(a.elems) != len(b.elems) {
				return m.fail("array")
			}

			for i := range a.elems {
				if !m.val(a.elems[i], b.elems[i]) {
					return false
				}
			}

			return true
		}

		if a.pos != nil {
			have := m.n.objPos(b)
			for _, k := range inOrder(a.pos) {
				if !have[k] && !have["*"] {
					return m.fail("array element that may be negative")
				}
			}
		}

		if a.zero {
			if b.conc || !b.zero {
				return m.fail("array no longer zero")
			}
		} else if b.conc || b.zero || a.term != b.term {
			if !isJoinTerm(a.term) {
				return m.fail("array %s", a.term)
			}
		}

		for _, k := range inOrder(a.known) {
			v := a.known[k]
			w, ok := b.known[k]
			if !ok || !m.val(v, w) {
				return m.fail("array element")
			}
		}

		return len(a.known) == len(b.known) || !a.zero
	}

	if a.term != b.term && !isJoinTerm(a.term) {
		return m.fail("map")
	}

	if len(a.keys) != len(b.keys) && !isJoinTerm(a.term) {
		return m.fail("map keys")
	}

	return true
}

func (m *matcher) val(o, n Val) bool {
	if o == nil || n == nil {
		return true
	}

	switch o := o.(type) {
	case Num:
		if n, ok := n.(Num); ok {
			return m.lin(o.l, n.l)
		}
	case Boo:
		if n, ok := n.(Boo); ok {
			return m.boo(o.b, n.b)
		}
	case BV:
		if n, ok := n.(BV); ok && len(o.bits) == len(n.bits) {
			for i := range o.bits {
				if !m.boo(o.bits[i], n.bits[i]) {
					return false
				}
			}

			return true
		}
	case Str:
		if n, ok := n.(Str); ok {
			if len(o.parts) == 1 && o.parts[0].term != "" {
				return m.term(o.parts[0].term, n.key()) || o.key() == n.key()
			}

			return o.key() == n.key() || m.fail("string")
		}
	case Flt:
		if n, ok := n.(Flt); ok {
			if !m.term(o.term, n.term) {
				return false
			}

			if o.lo != nil {
				if n.lo == nil {
					return m.fail("float")
				}

				m.lin(*o.lo, *n.lo)
			}

			if o.hi != nil {
				if n.hi == nil || o.open && !n.open {
					return m.fail("float")
				}

				m.lin(*o.hi, *n.hi)
			}

			return true
		}
	case Tup:
		if n, ok := n.(Tup); ok && len(o.fs) == len(n.fs) {
			for i := range o.fs {
				if !m.val(o.fs[i], n.fs[i]) {
					return false
				}
			}

			return true
		}
	case Ptr:
		n, ok := n.(Ptr)
		if !ok {
			break
		}

		if !m.boo(o.nil_, n.nil_) {
			return false
		}

		if n.obj == 0 {
			return true
		}

		if o.path != n.path || (o.idx == nil) != (n.idx == nil) {
			return m.fail("pointer")
		}

		if o.idx != nil {
			m.lin(*o.idx, *n.idx)
		}

		return m.objs(o.obj, n.obj)
	case Slc:
		n, ok := n.(Slc)
		if !ok {
			break
		}

		m.lin(o.len, n.len)
		m.lin(o.cap, n.cap)
		m.boo(o.nil_, n.nil_)

		if n.obj == 0 {
			return true
		}

		m.lin(o.off, n.off)

		return m.objs(o.obj, n.obj)
	case Ifc:
		n, ok := n.(Ifc)
		if !ok {
			break
		}

		if !m.boo(o.nil_, n.nil_) {
			return false
		}

		if n.nil_ == bddTrue {
			return true
		}

		for _, e := range strings.Split(o.errs, ",") {
			if e != "" && !strings.Contains(n.errs, ","+e+",") {
				return m.fail("error causes")
			}
		}

		if o.typ != nil {
			if n.typ == nil || o.typ.String() != n.typ.String() {
				return m.fail("dynamic type")
			}

			return m.val(o.val, n.val)
		}

		if n.typ == nil && n.term == o.term {
			return true
		}

		return isJoinTerm(o.term) && m.term(o.term, "i"+valKey(n))
	case Fun:
		n, ok := n.(Fun)
		if !ok {
			break
		}

		if !m.boo(o.nil_, n.nil_) {
			return false
		}

		if n.nil_ == bddTrue {
			return true
		}

		if o.fn != nil {
			if n.fn != o.fn || len(o.binds) != len(n.binds) {
				return m.fail("function")
			}

			for i := range o.binds {
				if !m.val(o.binds[i], n.binds[i]) {
					return false
				}
			}

			return true
		}

		if n.fn == nil && n.term == o.term {
			return true
		}

		return isJoinTerm(o.term) && m.term(o.term, "F"+valKey(n))
	case Ref:
		n, ok := n.(Ref)
		if !ok {
			break
		}

		if !m.boo(o.nil_, n.nil_) {
			return false
		}

		if n.nil_ == bddTrue {
			return true
		}

		if o.obj != n.obj {
			return o.obj == 0 && isJoinTerm(o.term)
		}

		return m.term(o.term, n.term)
	case Opq:
		if n, ok := n.(Opq); ok && n.term == o.term {
			return true
		}

		return isJoinTerm(o.term) && m.term(o.term, "v"+valKey(n))
	}

	return m.fail("%s against %s", showVal(n), showVal(o))
}

// includes reports that every concrete state of n is one of o.
func includes(o, n *Node, live func(ssa.Value) bool) (bool, string) {
	m := &matcher{o: o.st, n: n.st, num: map[Sym]Lin{}, atom: map[int]*bdd{}, str: map[string]string{}, obj: map[ObjID]ObjID{}}

	if o.st.ghost != n.st.ghost {
		return false, "ghost"
	}

	for _, k := range byName(o.env) {
		v := o.env[k]
		if live != nil && !live(k) {
			continue
		}

		if w, ok := n.env[k]; ok {
			if !m.val(v, w) {
				return false, "register " + k.Name() + ": " + m.why
			}
		}
	}

	for _, k := range inOrder(o.st.gv) {
		v := o.st.gv[k]
		w, ok := n.st.gv[k]
		if !ok || !m.val(v, w) {
			return false, "ghost " + k
		}
	}

	for _, id := range inOrder(o.st.heap) {
		a := o.st.heap[id]
		b, ok := n.st.heap[id]
		if !ok || m.obj[id] == id {
			continue
		}

		if m.obj[id] != 0 {
			continue
		}

		if joinObjs[id] {
			continue
		}

		if !m.content(a, b) {
			return false, fmt.Sprintf("object %d %s: %s", id, a.name, m.why)
		}
	}

	for _, p := range m.laterN {
		if !n.st.provesEQ(p[0].subst(m.num).sub(p[1])) {
			return false, fmt.Sprintf("number %s is not %s", p[1], p[0])
		}
	}

	for _, c := range o.st.cons {
		c2 := c.subst(m.num)
		if !n.st.ckeys[c2.key()] && !n.st.proves(c2) {
			return false, "constraint " + c.String() + " >= 0"
		}
	}

	for _, p := range m.laterB {
		w := substFacts(p[0], m.num, m.atom)
		if n.st.decide(bIff(w, p[1])) != 1 {
			return false, "condition"
		}
	}

	f := substFacts(o.st.facts, m.num, m.atom)
	if n.st.decide(f) != 1 {
		return false, "facts " + o.st.facts.String()
	}

	return true, ""
}

// byName lists the registers of an environment in a fixed order.
func byName(env map[ssa.Value]Val) []ssa.Value {
	out := make([]ssa.Value, 0, len(env))
	for v := range env {
		out = append(out, v)
	}

	sort.Slice(out, func(i, k int) bool {
		a, b := regName(out[i]), regName(out[k])
		if len(a) != len(b) {
			return len(a) < len(b)
		}

		return a < b
	})

	return out
}

// inOrder lists the keys of a map in a fixed order.
func inOrder[K cmp.Ordered, V any](m map[K]V) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}

	slices.Sort(out)

	return out
}

var regNames = map[ssa.Value]string{}

func regName(v ssa.Value) string {
	n, ok := regNames[v]
	if !ok {
		n = "?"

		for i, k := range retKeys {
			if k == v {
				n = fmt.Sprintf("result%d", i)
			}
		}

		if _, isConst := v.(*ssa.Const); !isConst {
			n = v.Name()
		}

		regNames[v] = n
	}

	return n
}
