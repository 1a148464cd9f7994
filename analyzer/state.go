package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// State is what is known at a point of the program: the memory, linear
// constraints, a boolean function of the atoms, and the ghost of the rule.
type State struct {
	x     *Interp
	heap  map[ObjID]*Obj
	cons  []Lin // each >= 0
	ckeys map[string]bool
	facts *bdd
	ghost string
	gv    map[string]Val
	owned bool // heap map is not shared
	dead  bool
	panic Val // the value of the panic being handled, nil if none
}

func (x *Interp) newState() *State {
	return &State{x: x, heap: map[ObjID]*Obj{}, facts: bddTrue, owned: true, ckeys: map[string]bool{}}
}

func (st *State) fork() *State {
	n := *st
	n.heap = make(map[ObjID]*Obj, len(st.heap))

	for k, v := range st.heap {
		n.heap[k] = v
	}

	n.cons = st.cons[:len(st.cons):len(st.cons)]
	n.ckeys = make(map[string]bool, len(st.ckeys))

	for k := range st.ckeys {
		n.ckeys[k] = true
	}

	if st.gv != nil {
		n.gv = make(map[string]Val, len(st.gv))
		for k, v := range st.gv {
			n.gv[k] = v
		}
	}

	return &n
}

func (st *State) setGV(k string, v Val) {
	n := map[string]Val{}
	for a, b := range st.gv {
		n[a] = b
	}

	if v == nil {
		delete(n, k)
	} else {
		n[k] = v
	}

	st.gv = n
}

func (st *State) addCons(l Lin) {
	l = l.normGE()
	if c, ok := l.isConst(); ok {
		if c < 0 {
			st.dead = true
		}

		return
	}

	k := l.key()
	if st.ckeys[k] {
		return
	}

	st.ckeys[k] = true
	st.cons = append(st.cons, l)
}

// relevant are the constraints connected to the symbols of a query, with the
// bounds of the symbols and what is known of products.
func (st *State) relevant(q []Lin) []Lin {
	want := map[Sym]bool{}

	var work []Sym

	add := func(l Lin) {
		for _, t := range l.t {
			if !want[t.s] {
				want[t.s] = true
				work = append(work, t.s)
			}
		}
	}
	for _, l := range q {
		add(l)
	}

	used := make([]bool, len(st.cons))

	var out []Lin

	for rounds := 0; rounds < 64; rounds++ {
		grew := false

		for i, c := range st.cons {
			if used[i] {
				continue
			}

			for _, t := range c.t {
				if want[t.s] {
					used[i] = true
					grew = true

					out = append(out, c)
					add(c)

					break
				}
			}
		}

		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]

			if p := syms[s].prod; p != nil {
				add(p[0])
				add(p[1])

				grew = true
			}
		}

		if !grew {
			break
		}
	}

	var ss []int
	for s := range want {
		ss = append(ss, int(s))
	}

	sort.Ints(ss)

	var prods []Sym

	for _, i := range ss {
		s := Sym(i)
		if syms[s].lo != nil {
			out = append(out, linS(s).addConst(-*syms[s].lo))
		}

		if syms[s].hi != nil {
			out = append(out, linC(*syms[s].hi).sub(linS(s)))
		}

		if syms[s].prod != nil {
			prods = append(prods, s)
		}
	}

	if len(prods) > 0 {
		out = append(out, prodLemmas(append(out, q...), prods)...)
	}

	return out
}

// mulSyms is the symbol of the product of two symbols.
func mulSyms(a, b Sym) Sym {
	if a > b {
		a, b = b, a
	}

	s := symOf(fmt.Sprintf("(%s*%s)", syms[a].name, syms[b].name))
	if syms[s].prod == nil {
		syms[s].prod = &[2]Lin{linS(a), linS(b)}
		syms[s].bindable = syms[a].bindable || syms[b].bindable
	}

	return s
}

// mulLin multiplies two linear expressions, if all products are of degree two.
func mulLin(a, b Lin) (Lin, bool) {
	if c, ok := a.isConst(); ok {
		return b.mulC(c), true
	}

	if c, ok := b.isConst(); ok {
		return a.mulC(c), true
	}

	r := linC(a.c * b.c)
	r = r.add(Lin{t: a.t}.mulC(b.c)).add(Lin{t: b.t}.mulC(a.c))

	for _, x := range a.t {
		for _, y := range b.t {
			if syms[x.s].prod != nil || syms[y.s].prod != nil {
				return Lin{}, false
			}

			r = r.add(linS(mulSyms(x.s, y.s)).mulC(x.k * y.k))
		}
	}

	return r, true
}

// prodLemmas multiplies pairs of constraints whose product only needs products
// that are mentioned already.
func prodLemmas(cs []Lin, prods []Sym) []Lin {
	have := map[Sym]bool{}
	fac := map[Sym]bool{}

	for _, s := range prods {
		have[s] = true

		for _, f := range syms[s].prod {
			if q, ok := f.isSym(); ok {
				fac[q] = true
			}
		}
	}

	var lin []Lin

	for _, c := range cs {
		ok := len(c.t) > 0 && len(c.t) <= 3
		for _, t := range c.t {
			if syms[t.s].prod != nil || !fac[t.s] {
				ok = false
			}
		}

		if ok {
			lin = append(lin, c)
		}
	}

	var out []Lin

	for i := range lin {
		for j := i; j < len(lin) && len(out) < 200; j++ {
			ok := true

			for _, a := range lin[i].t {
				for _, b := range lin[j].t {
					lo, hi := a.s, b.s
					if lo > hi {
						lo, hi = hi, lo
					}

					s, known := symByName[fmt.Sprintf("(%s*%s)", syms[lo].name, syms[hi].name)]
					if !known || !have[s] {
						ok = false
					}
				}
			}

			if ok {
				if r, good := mulLin(lin[i], lin[j]); good {
					out = append(out, r)
				}
			}
		}
	}

	return out
}

// proves l >= 0.
func (st *State) proves(l Lin) bool {
	l = l.normGE()
	if c, ok := l.isConst(); ok {
		return c >= 0 || st.infeasible()
	}

	return st.refute([]Lin{l.neg().addConst(-1)}, 6)
}

func (st *State) provesEQ(l Lin) bool {
	if c, ok := l.isConst(); ok {
		return c == 0
	}

	return st.proves(l) && st.proves(l.neg())
}

// provesQuick does not split cases.
func (st *State) provesQuick(l Lin) bool {
	l = l.normGE()
	if c, ok := l.isConst(); ok {
		return c >= 0
	}

	return st.refute([]Lin{l.neg().addConst(-1)}, 0)
}

func (st *State) infeasible() bool {
	if st.dead || st.facts == bddFalse {
		return true
	}

	return false
}

var refuteMemo = map[string]bool{}

// refute reports that the constraints q contradict the state; it splits cases
// over the numeric atoms of the facts that are connected to them.
func (st *State) refute(q []Lin, depth int) bool {
	if st.dead || st.facts == bddFalse {
		return true
	}

	var kb strings.Builder

	rel := st.relevant(q)
	all := append(append([]Lin(nil), rel...), q...)

	if infeasible(all) {
		return true
	}

	if depth == 0 || st.facts == bddTrue {
		return false
	}

	for _, l := range all {
		kb.WriteString(l.key())
		kb.WriteByte('|')
	}

	fmt.Fprintf(&kb, "#%d#%d", st.facts.id, depth)

	if r, ok := refuteMemo[kb.String()]; ok {
		return r
	}

	r := st.refuteSplit(st.facts, rel, q, depth)
	refuteMemo[kb.String()] = r

	return r
}

var forcedMemo = map[int][]literal{}

// forcedLits are the numeric literals that follow from a function.
func forcedLits(facts *bdd) []literal {
	if facts.isConst() {
		return nil
	}

	if r, ok := forcedMemo[facts.id]; ok {
		return r
	}

	var out []literal

	for _, l := range bddImplied(facts) {
		if atoms[l.atom].num != nil {
			out = append(out, l)
		}
	}

	forcedMemo[facts.id] = out

	return out
}

func (st *State) refuteSplit(facts *bdd, rel, q []Lin, depth int) bool {
	if facts == bddFalse {
		return true
	}

	forced := false

	for _, f := range forcedLits(facts) {
		n := atoms[f.atom].num
		l := *n

		if !f.pos {
			l = n.neg().addConst(-1)
		}

		facts = bddRestrict(facts, map[int]bool{f.atom: f.pos})
		q = append(q[:len(q):len(q)], l)
		forced = true
	}

	if forced {
		rel = st.relevant(q)
		if infeasible(append(rel[:len(rel):len(rel)], q...)) {
			return true
		}
	}

	// atoms decided by the constraints
	want := map[Sym]int{}

	for _, l := range q {
		for _, t := range l.t {
			want[t.s] = 2
		}
	}

	for _, l := range rel {
		hit := false

		for _, t := range l.t {
			if want[t.s] == 2 {
				hit = true
			}
		}

		if hit {
			for _, t := range l.t {
				if want[t.s] == 0 {
					want[t.s] = 1
				}
			}
		}
	}

	all := append(append([]Lin(nil), rel...), q...)
	best, score := -1, 0

	for _, a := range bddSupport(facts) {
		n := atoms[a].num
		if n == nil {
			continue
		}

		sc := 0
		for _, t := range n.t {
			sc += want[t.s]
		}

		if sc == 0 {
			continue
		}

		if infeasible(append(all[:len(all):len(all)], *n)) {
			facts = bddRestrict(facts, map[int]bool{a: false})
			if facts == bddFalse {
				return true
			}

			continue
		}

		if infeasible(append(all[:len(all):len(all)], n.neg().addConst(-1))) {
			facts = bddRestrict(facts, map[int]bool{a: true})
			if facts == bddFalse {
				return true
			}

			continue
		}

		// prefer atoms whose other case is quickly closed
		sc = sc*4 - len(n.t)
		if bddRestrict(facts, map[int]bool{a: true}) == bddFalse || bddRestrict(facts, map[int]bool{a: false}) == bddFalse {
			sc += 100
		}

		if best < 0 || sc > score {
			best, score = a, sc
		}
	}

	if best < 0 || depth == 0 {
		return false
	}

	n := *atoms[best].num

	for _, pos := range []bool{true, false} {
		f := bddRestrict(facts, map[int]bool{best: pos})
		if f == bddFalse {
			continue
		}

		l := n
		if !pos {
			l = n.neg().addConst(-1)
		}

		q2 := append(q[:len(q):len(q)], l)
		rel2 := st.relevant(q2)

		if infeasible(append(rel2[:len(rel2):len(rel2)], q2...)) {
			continue
		}

		if !st.refuteSplit(f, rel2, q2, depth-1) {
			return false
		}
	}

	return true
}

// simplify restricts the numeric atoms of b that the constraints decide.
func (st *State) simplify(b *bdd) *bdd {
	if b.isConst() {
		return b
	}

	for _, a := range bddSupport(b) {
		n := atoms[a].num
		if n == nil {
			continue
		}

		if st.provesQuick(*n) {
			b = bddRestrict(b, map[int]bool{a: true})
		} else if st.provesQuick(n.neg().addConst(-1)) {
			b = bddRestrict(b, map[int]bool{a: false})
		}
	}

	return b
}

// decide evaluates a condition: 1 true, 0 false, -1 unknown.
func (st *State) decide(b *bdd) int {
	if st.facts == bddFalse {
		return 1
	}

	if bAnd(st.facts, b) == bddFalse {
		return 0
	}

	if bAnd(st.facts, bNot(b)) == bddFalse {
		return 1
	}

	b = st.simplify(b)
	if b == bddTrue {
		return 1
	}

	if b == bddFalse {
		return 0
	}

	if bAnd(st.facts, b) == bddFalse {
		return 0
	}

	if bAnd(st.facts, bNot(b)) == bddFalse {
		return 1
	}

	num := false
	for _, a := range bddSupport(b) {
		num = num || atoms[a].num != nil
	}

	if !num {
		return -1
	}

	// in an impossible state everything holds
	for _, v := range []int{1, 0} {
		g := b
		if v == 1 {
			g = bNot(b)
		}

		// b (or its negation) is impossible if each of its cubes is
		cubes, ok := bddCubes(g, 6)
		if !ok {
			continue
		}

		all := true

		for _, c := range cubes {
			var q []Lin

			f := st.facts
			vals := map[int]bool{}

			for _, l := range c {
				vals[l.atom] = l.pos
				if n := atoms[l.atom].num; n != nil {
					if l.pos {
						q = append(q, *n)
					} else {
						q = append(q, n.neg().addConst(-1))
					}
				}
			}

			f = bddRestrict(f, vals)
			if f == bddFalse {
				continue
			}

			if len(q) == 0 {
				all = false
				break
			}

			s2 := *st
			s2.facts = f

			if !s2.refute(q, 3) {
				all = false
				break
			}
		}

		if all {
			return v
		}
	}

	return -1
}

// assume adds a condition; it reports false if the state becomes impossible.
func (st *State) assume(b *bdd) bool {
	b = st.simplify(b)
	st.facts = bAnd(st.facts, b)

	return st.settle()
}

// settle moves the numeric atoms that the facts decide to the constraints.
func (st *State) settle() bool {
	for {
		if st.facts == bddFalse {
			st.dead = true
			return false
		}

		if st.facts == bddTrue {
			break
		}

		moved := map[int]bool{}

		for _, l := range bddImplied(st.facts) {
			n := atoms[l.atom].num
			if n == nil {
				continue
			}

			moved[l.atom] = l.pos

			if l.pos {
				st.addCons(*n)
			} else {
				st.addCons(n.neg().addConst(-1))
			}
		}

		st.facts = bddRestrict(st.facts, moved)

		if len(moved) == 0 {
			break
		}

		st.facts = st.simplify(st.facts)
	}

	if st.dead {
		return false
	}

	if len(st.cons) > 0 {
		last := st.cons[len(st.cons)-1]
		if infeasible(st.relevant([]Lin{last})) {
			st.dead = true
			return false
		}
	}

	return true
}

// boolOf is the condition of a boolean value.
func boolOf(v Val) *bdd {
	switch v := v.(type) {
	case Boo:
		return v.b
	case Opq:
		return bddVar(atomOf("opaque:" + v.term))
	}

	panic(fmt.Sprintf("boolOf: %T", v))
}

// numOf is the linear form of an integer value.
func numOf(v Val) Lin {
	switch v := v.(type) {
	case Num:
		return v.l
	case Opq:
		return linS(symOf("opaque:" + v.term))
	case BV:
		if c, ok := v.constant(); ok {
			return linC(int64(c))
		}

		return linS(bvSym(v))
	}

	panic(fmt.Sprintf("numOf: %T", v))
}

func bvSym(v BV) Sym {
	s := symOf("num:" + valKey(v))
	syms[s].lo = i64(0)

	return s
}

// object access

func (st *State) obj(id ObjID) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}

	if o, ok := st.x.lazyInfo[id]; ok {
		if o.kind == 'v' && o.val == nil {
			n := *o

			if g := st.x.gname[id]; g != nil {
				n.val = st.x.initial(g)
			}

			if n.val == nil {
				n.val = st.x.fresh(st, o.typ, "*"+o.term)
			}

			if h := st.x.hooks.lazy; h != nil {
				if v := h(st, o); v != nil {
					n.val = v
				}
			}

			st.heap[id] = &n

			return &n
		}

		return o
	}

	return nil
}

func (st *State) newObj(o *Obj) ObjID {
	id := nextObj
	nextObj++
	st.heap[id] = o

	return id
}

func (st *State) newVar(t types.Type, v Val, name string) ObjID {
	return st.newObj(&Obj{typ: t, kind: 'v', val: v, name: name})
}

// newSlice makes a slice of concrete elements.
func (st *State) newSlice(t types.Type, elems []Val) Slc {
	id := st.newObj(&Obj{typ: t, kind: 'a', elems: elems, conc: true, size: linC(int64(len(elems)))})
	n := linC(int64(len(elems)))

	return Slc{obj: id, len: n, cap: n, nil_: bddFalse}
}

func (o *Obj) copy() *Obj {
	n := *o
	n.elems = append([]Val(nil), o.elems...)
	n.known = map[string]Val{}
	n.kidx = map[string]Lin{}

	for k, v := range o.known {
		n.known[k] = v
		n.kidx[k] = o.kidx[k]
	}

	return &n
}

// elem reads element i of an array object.
func (st *State) elem(id ObjID, i Lin) Val {
	o := st.obj(id)
	if o == nil {
		return Opq{freshName("elem")}
	}

	if o.kind == 'v' {
		if t, ok := o.val.(Tup); ok {
			if c, ok := i.isConst(); ok && c >= 0 && int(c) < len(t.fs) {
				return t.fs[c]
			}

			if _, isArr := o.typ.Underlying().(*types.Array); isArr && len(t.fs) > 0 {
				return st.pick(t.fs, i, arrElem(o.typ), freshName("elem"))
			}
		}

		if at, ok := o.typ.Underlying().(*types.Array); ok {
			return st.x.fresh(st, at.Elem(), freshName("elem"))
		}

		return Opq{freshName("elem")}
	}

	if o.conc {
		if c, ok := i.isConst(); ok {
			if c >= 0 && int(c) < len(o.elems) {
				return o.elems[c]
			}

			return st.x.fresh(st, o.typ, freshName("outside"))
		}

		return st.pick(o.elems, i, o.typ, freshName("elem"))
	}

	if v, ok := o.known[i.key()]; ok {
		return v
	}

	if o.zero {
		if len(o.known) == 0 {
			return st.x.zeroVal(o.typ)
		}

		return st.x.fresh(st, o.typ, freshName("elem"))
	}

	v := st.x.fresh(st, o.typ, o.term+"["+i.String()+"]")
	if h := st.x.hooks.elem; h != nil {
		if w := h(st, o, i, v); w != nil {
			v = w
		}
	}

	if o.pos != nil {
		st.assumePos(v, o.pos, "")
	}

	return v
}

func arrElem(t types.Type) types.Type {
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Elem()
	}

	return t
}

// pick is the element of a concrete array at an unknown index.
func (st *State) pick(elems []Val, i Lin, t types.Type, term string) Val {
	if len(elems) == 0 {
		return st.x.fresh(st, t, term)
	}

	same := true

	for _, e := range elems[1:] {
		if !valEq(e, elems[0]) {
			same = false
		}
	}

	if same {
		return elems[0]
	}

	switch elems[0].(type) {
	case Num:
		v := st.x.fresh(st, t, term)

		// bounds, if all are constants
		lo, hi := int64(0), int64(0)

		for k, e := range elems {
			c, ok := numOf(e).isConst()
			if !ok {
				return v
			}

			if k == 0 || c < lo {
				lo = c
			}

			if k == 0 || c > hi {
				hi = c
			}
		}

		n := numOf(v)
		st.addCons(n.addConst(-lo))
		st.addCons(linC(hi).sub(n))

		return v
	case Boo, BV:
		r := elems[len(elems)-1]

		for k := len(elems) - 2; k >= 0; k-- {
			c := bEQ(i.addConst(int64(-k)))

			switch e := elems[k].(type) {
			case Boo:
				r = Boo{ite(c, e.b, r.(Boo).b)}
			case BV:
				rb := r.(BV)
				n := BV{make([]*bdd, len(e.bits))}

				for q := range n.bits {
					n.bits[q] = ite(c, e.bits[q], rb.bits[q])
				}

				r = n
			}
		}

		return r
	}

	return st.x.fresh(st, t, term)
}

// setElem writes element i of an array object.
func (st *State) setElem(id ObjID, i Lin, v Val) {
	o := st.obj(id)
	if o == nil {
		return
	}

	n := o.copy()

	if n.kind == 'v' {
		if t, ok := n.val.(Tup); ok {
			if c, ok := i.isConst(); ok && c >= 0 && int(c) < len(t.fs) {
				fs := append([]Val(nil), t.fs...)
				fs[c] = v
				n.val = Tup{fs}
			} else {
				n.val = st.x.fresh(st, n.typ, freshName("array"))
			}
		}

		st.heap[id] = n

		return
	}

	if n.conc {
		if c, ok := i.isConst(); ok {
			if c >= 0 && int(c) < len(n.elems) {
				n.elems[c] = v
			}

			st.heap[id] = n

			return
		}

		if st.x.usePos {
			n.pos = st.posOf(Slc{obj: id, len: linC(int64(len(n.elems))), nil_: bddFalse})
		}

		n.conc = false
		n.elems = nil
		n.term = freshName("array")
	}

	if n.zero && st.x.usePos && len(n.known) == 0 {
		n.pos = allPos
	}

	n.pos = meetPos(n.pos, st.nonNegative(v))

	if n.segs != nil {
		n.segs, n.term = nil, freshName("array")
	}

	for k, at := range n.kidx {
		if !st.differ(at, i) {
			delete(n.known, k)
			delete(n.kidx, k)

			if n.zero {
				n.zero = false
				n.term = freshName("array")
			}
		}
	}

	if !n.zero {
		// elements that were read before may have been this one
		n.term = freshName(strings.SplitN(n.term, "#", 2)[0])
	}

	n.known[i.key()] = v
	n.kidx[i.key()] = i
	st.heap[id] = n
}

func (st *State) differ(a, b Lin) bool {
	d := a.sub(b)
	if c, ok := d.isConst(); ok {
		return c != 0
	}

	return st.provesQuick(d.addConst(-1)) || st.provesQuick(d.neg().addConst(-1))
}

// havocObj forgets the contents of an object.
func (st *State) havocObj(id ObjID) {
	o := st.obj(id)
	if o == nil {
		return
	}

	n := &Obj{typ: o.typ, kind: o.kind, term: freshName("havoc"), name: o.name, size: o.size}
	if n.kind == 'v' {
		n.val = st.x.fresh(st, o.typ, freshName("havoc"))
	}

	st.heap[id] = n
}

// allPos stands for the numbers of no element at all.
var allPos = map[string]bool{"*": true}

func meetPos(a, b map[string]bool) map[string]bool {
	switch {
	case a == nil || b == nil:
		return nil
	case a["*"]:
		return b
	case b["*"]:
		return a
	}

	var out map[string]bool

	for _, k := range inOrder(a) {
		if b[k] {
			if out == nil {
				out = map[string]bool{}
			}

			out[k] = true
		}
	}

	return out
}

// nonNegative lists the numbers of a value that are not negative, nil: none
// is known to be.
func (st *State) nonNegative(v Val) map[string]bool {
	if !st.x.usePos {
		return nil
	}

	var out map[string]bool

	var rec func(v Val, path string)
	rec = func(v Val, path string) {
		switch v := v.(type) {
		case Num:
			if st.provesQuick(v.l) || st.proves(v.l) {
				if out == nil {
					out = map[string]bool{}
				}

				out[path] = true
			}
		case Tup:
			for i, f := range v.fs {
				rec(f, fmt.Sprintf("%s.%d", path, i))
			}
		}
	}
	rec(v, "")

	return out
}

func (st *State) assumePos(v Val, pos map[string]bool, path string) {
	switch v := v.(type) {
	case Num:
		if pos[path] || pos["*"] {
			if _, isC := v.l.isConst(); !isC {
				st.addCons(v.l)
			}
		}
	case Tup:
		for i, f := range v.fs {
			st.assumePos(f, pos, fmt.Sprintf("%s.%d", path, i))
		}
	}
}

// posOf lists the numbers of every element of a slice that are not negative.
func (st *State) posOf(s Slc) map[string]bool {
	if n, ok := s.len.isConst(); ok && n == 0 || s.obj == 0 {
		return allPos
	}

	o := st.obj(s.obj)
	if o == nil || o.kind != 'a' {
		if es, ok := st.elemsOf(s); ok {
			return st.posOfAll(es)
		}

		return nil
	}

	switch {
	case o.conc:
		if es, ok := st.elemsOf(s); ok {
			return st.posOfAll(es)
		}

		return st.posOfAll(o.elems)
	case o.zero && len(o.known) == 0:
		return allPos
	}

	return o.pos
}

func (st *State) posOfAll(es []Val) map[string]bool {
	out := allPos
	for _, e := range es {
		out = meetPos(out, st.nonNegative(e))
	}

	return out
}

// objPos is posOf for a whole object.
func (st *State) objPos(o *Obj) map[string]bool {
	switch {
	case !st.x.usePos || o.kind != 'a':
		return nil
	case o.conc:
		return st.posOfAll(o.elems)
	case o.zero && len(o.known) == 0:
		return allPos
	}

	return o.pos
}
