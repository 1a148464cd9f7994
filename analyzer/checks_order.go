package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L01", checkL01)
}

// order decides that what a function does and returns does not depend on the
// order in which a map (or a slice in an unspecified order) is gone through: it
// interprets the function once for each order of a few unknown elements and
// compares the results, all of memory included.
type order struct {
	*ai
	id     string
	fn     *ssa.Function
	target *ssa.Range // the loop, if over a map
	source *ssa.Call  // the call with a result in an unspecified order
	result int
	n      int
	perm   []int
	looped map[*ssa.BasicBlock]bool
	uniq   func(t types.Type) (int, int, []constant.Value) // the field that identifies a value, its kind and the kinds there are
	elemID []leaf                                          // leaves of the elements of a slice that are different from each other
	tagged bool
	inSort int
	starts int64
	srcObj ObjID // the slice in an unspecified order
}

func (o *order) started(st *State) bool { return st.gv["started"] != nil }

func (o *order) start(st *State) {
	if !o.started(st) {
		// what led here is the same in each order
		o.starts++
		st.setGV("started", Num{linC(o.starts)})
	}

	o.maxNodes, o.maxStates, o.coarse = 1<<20, 1<<20, false

	if !o.tagged {
		o.tagged = true
		freshTag += strings.NewReplacer(" ", "-", "[", "", "]", "").Replace(fmt.Sprint(o.perm)) + ":"
	}
}

// keys makes unknown keys that differ from each other.
func (o *order) keys(st *State, t types.Type, name string, n int) []Val {
	var ks []Val

	for i := 0; i < n; i++ {
		k := o.fresh(st, t, fmt.Sprintf("%s%d", name, i))

		f, kind, kinds := o.uniq(t)
		if f >= 0 && kind >= 0 {
			one := bddFalse
			for _, c := range kinds {
				one = bOr(one, o.equal(st, k.(Tup).fs[kind], o.goConst(c, types.Typ[types.Int], t.Underlying().(*types.Struct).Field(kind).Type()), t))
			}

			st.assume(one)
		}

		for _, p := range ks {
			if f >= 0 {
				st.assume(bNot(o.equal(st, p.(Tup).fs[f], k.(Tup).fs[f], t)))
			} else {
				st.assume(bNot(o.keyEq(st, p, k, t)))
			}
		}

		ks = append(ks, k)
	}

	return ks
}

func (o *order) rangeM(fr *Frame, st *State, in *ssa.Range, v Val) {
	m, ok := v.(Ref)
	if !ok || m.obj == 0 {
		return
	}

	ob := st.obj(m.obj)
	if ob == nil {
		return
	}

	mt := in.X.Type().Underlying().(*types.Map)
	isTarget := in == o.target && fr.parent == nil
	c := &Obj{typ: ob.typ, kind: 'm', conc: true, name: ob.name}

	switch {
	case isTarget || !ob.conc:
		n := o.n
		name := "key" + o.id + "."

		if !isTarget {
			// what a nested iteration does is decided on its own
			n, name = o.n-2, "key:"+ob.term+"."
		}

		c.keys = o.keys(st, mt.Key(), name, n)
		for i := range c.keys {
			c.elems = append(c.elems, o.fresh(st, mt.Elem(), "of "+name+fmt.Sprint(i)))
		}
	case len(ob.keys) > 4:
		c.keys, c.elems = ob.keys[:1], ob.elems[:1]
	default:
		c.keys, c.elems = ob.keys, ob.elems
	}

	// a canonical order
	idx := make([]int, len(c.keys))
	for i := range idx {
		idx[i] = i
	}

	sort.Slice(idx, func(a, b int) bool { return valKey(c.keys[idx[a]]) < valKey(c.keys[idx[b]]) })

	if isTarget {
		p := make([]int, len(idx))
		for i := range idx {
			p[i] = idx[o.perm[i]]
		}

		idx = p
	}

	keys, elems := c.keys, c.elems
	c.keys, c.elems = nil, nil

	for _, i := range idx {
		c.keys = append(c.keys, keys[i])
		c.elems = append(c.elems, elems[i])
	}

	st.assume(bNot(m.nil_))
	st.heap[m.obj] = c

	if isTarget {
		o.start(st)
	}
}

func (o *order) call(c *CallCtx) (bool, []Outcome) {
	// the source of an unordered slice
	if o.source != nil && c.instr == o.source && c.fr.parent == nil {
		return true, o.unordered(c)
	}

	top := c.fr.parent == nil && c.fr.fn == o.fn && o.inSort == 0

	handed := false

	for _, a := range c.args {
		if s, ok := a.(Slc); ok && o.srcObj != 0 && s.obj == o.srcObj {
			handed = true
		}
	}

	if c.callee != nil && o.p.inRepo(c.callee) && top && !handed {
		switch {
		case !o.started(c.st):
			return c.ret(o.results(c, freshName("before"))...)
		case c.instr != nil && !o.looped[c.instr.Block()]:
			k := len(c.st.gv)
			c.st.setGV(fmt.Sprintf("event%03d", k), Tup{append([]Val{strC(c.name)}, c.args...)})

			return c.ret(o.results(c, fmt.Sprintf("after%s.%s.%d", o.id, c.pos(), k))...)
		}
	}

	switch c.name {
	case "math.Inf":
		if n, ok := constInt(c.args[0]); ok && n >= 0 {
			return c.ret(Flt{term: "math.Inf(n1)"})
		}

		return c.ret(Flt{term: "math.Inf(n-1)"})
	case "maps.Clone":
		if m, ok := c.args[0].(Ref); ok && m.obj != 0 {
			if ob := c.st.obj(m.obj); ob != nil {
				cp := *ob
				return c.ret(Ref{obj: c.st.newObj(&cp), nil_: m.nil_})
			}
		}
	case "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return o.sort(c)
	}

	// an unknown function is a function of its arguments
	if strings.HasPrefix(c.name, "dyn:") && c.callee == nil {
		var k []string
		for _, a := range c.args {
			k = append(k, valKey(a))
		}

		return c.ret(o.results(c, "("+valKey(c.fun)+")("+strings.Join(k, ",")+")")...)
	}

	return false, nil
}

func (o *order) results(c *CallCtx, name string) []Val {
	var out []Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		out = append(out, o.fresh(c.st, c.sig.Results().At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
	}

	return out
}

// unordered is the result of a call with the elements of one slice in an
// unspecified order.
func (o *order) unordered(c *CallCtx) []Outcome {
	st := c.st
	rs := o.results(c, "src"+o.id)
	sl := c.sig.Results().At(o.result).Type().Underlying().(*types.Slice)

	var es []Val

	for i := 0; i < o.n; i++ {
		e := o.fresh(st, sl.Elem(), fmt.Sprintf("el%s.%d", o.id, i))

		for _, p := range es {
			for _, l := range o.elemID {
				st.assume(bNot(o.equal(st, st.leafOf(p, sl.Elem(), l), st.leafOf(e, sl.Elem(), l), l.typ)))
			}
		}

		es = append(es, e)
	}

	var ps []Val
	for _, i := range o.perm {
		ps = append(ps, es[i])
	}

	rs[o.result] = st.newSlice(sl.Elem(), ps)
	o.srcObj = rs[o.result].(Slc).obj
	o.start(st)

	return []Outcome{{st: st, vals: rs}}
}

// sort puts a few elements in order in each way their comparisons may turn out.
func (o *order) sort(c *CallCtx) (bool, []Outcome) {
	sl, ok := unbox(c.args[0]).(Slc)
	if !ok || sl.obj == 0 {
		return false, nil
	}

	es, ok := c.st.elemsOf(sl)
	if !ok || len(es) > 4 {
		return false, nil
	}

	off, ok := sl.off.isConst()
	if !ok {
		return false, nil
	}

	put := func(st *State, es []Val) {
		for k, e := range es {
			st.setElem(sl.obj, linC(off+int64(k)), e)
		}
	}

	// each outcome of comparing two elements: the first belongs before
	less := func(st *State, es []Val, i, j int, do func(*State, bool)) bool {
		var bs []Outcome

		switch c.name {
		case "sort.Slice", "sort.SliceStable":
			put(st, es)
			bs = live(o.callVal(c.fr, st, c.instr, c.args[1], []Val{Num{linC(int64(i))}, Num{linC(int64(j))}}, false))
		case "slices.SortFunc", "slices.SortStableFunc":
			bs = live(o.callVal(c.fr, st, c.instr, c.args[1], []Val{es[i], es[j]}, false))
		default:
			bs = []Outcome{{st: st, vals: []Val{o.binop(st, token.LSS, es[i], es[j], types.Typ[types.Int], types.Typ[types.Bool])}}}
		}

		for _, b := range bs {
			if b.panic || len(b.vals) != 1 {
				return false
			}

			var cond *bdd

			switch v := b.vals[0].(type) {
			case Boo:
				cond = v.b
			case Num:
				cond = bNot(bGE(v.l))
			default:
				return false
			}

			b.st.split(cond, do)
		}

		return true
	}

	var out []Outcome

	good := true

	var ins func(st *State, es []Val, i, j int)
	ins = func(st *State, es []Val, i, j int) {
		switch {
		case i >= len(es):
			put(st, es)
			out = append(out, Outcome{st: st})
		case j == 0:
			ins(st, es, i+1, i+1)
		default:
			good = less(st, es, j, j-1, func(st *State, b bool) {
				if !b {
					ins(st, es, i+1, i+1)
					return
				}

				n := slices.Clone(es)
				n[j], n[j-1] = n[j-1], n[j]
				ins(st, n, i, j-1)
			}) && good
		}
	}

	o.inSort++
	ins(c.st, slices.Clone(es), 1, 1)
	o.inSort--

	if !good {
		return false, nil
	}

	return true, out
}

// diff is a difference of the results of two orders.
type diff struct {
	path string
	perm bool // the elements of a slice are the same but for their order
}

type comparer struct {
	*order
	j      *State // what is known in both
	s1, s2 *State
	seen   map[[2]ObjID]bool
	diffs  []diff
}

func (k *comparer) differ(path string) { k.diffs = append(k.diffs, diff{path: path}) }

func (k *comparer) try(v1, v2 Val, path string) bool {
	n := len(k.diffs)
	k.val(v1, v2, path, nil)
	same := len(k.diffs) == n
	k.diffs = k.diffs[:n]

	return same
}

func (k *comparer) val(v1, v2 Val, path string, t types.Type) {
	switch a := v1.(type) {
	case nil:
		if v2 != nil {
			k.differ(path)
		}

		return
	case Tup:
		b, ok := v2.(Tup)
		if !ok || len(a.fs) != len(b.fs) {
			k.differ(path)
			return
		}

		for i := range a.fs {
			p := fmt.Sprintf("%s[%d]", path, i)

			var ft types.Type
			if t != nil {
				if s, ok := t.Underlying().(*types.Struct); ok {
					p, ft = typeName(t)+"."+s.Field(i).Name(), s.Field(i).Type()
				}
			}

			k.val(a.fs[i], b.fs[i], p, ft)
		}

		return
	case Ptr:
		if b, ok := v2.(Ptr); ok {
			k.null(a.nil_, b.nil_, path)

			if k.j.decide(a.nil_) == 1 {
				return
			}

			if a.path != b.path || (a.idx == nil) != (b.idx == nil) || a.idx != nil && !k.j.provesEQ(a.idx.sub(*b.idx)) {
				k.differ(path)
				return
			}

			k.obj(a.obj, b.obj, path)

			return
		}
	case Slc:
		if b, ok := v2.(Slc); ok {
			k.slice(a, b, path)
			return
		}
	case Ref:
		if b, ok := v2.(Ref); ok {
			k.null(a.nil_, b.nil_, path)

			if k.j.decide(a.nil_) == 1 {
				return
			}

			if a.obj == 0 && b.obj == 0 {
				if a.term != b.term {
					k.differ(path)
				}

				return
			}

			k.obj(a.obj, b.obj, path)

			return
		}
	case Ifc:
		if b, ok := v2.(Ifc); ok {
			if k.j.same(a, b) {
				return
			}

			k.null(a.nil_, b.nil_, path)

			if k.j.decide(a.nil_) == 1 {
				return
			}

			if a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) {
				k.val(a.val, b.val, path, a.typ)
				return
			}

			// errors are not told apart by their text
			if a.typ == nil && b.typ == nil && strings.Contains(a.term, "#") && strings.Contains(b.term, "#") && a.errs == b.errs {
				return
			}
		}
	case Fun:
		if b, ok := v2.(Fun); ok && a.fn == b.fn && a.term == b.term && len(a.binds) == len(b.binds) {
			for i := range a.binds {
				k.val(a.binds[i], b.binds[i], path, nil)
			}

			return
		}
	}

	if !k.j.same(v1, v2) {
		k.differ(path)
	}
}

func (k *comparer) null(a, b *bdd, path string) {
	if k.j.decide(bIff(a, b)) != 1 {
		k.differ(path)
	}
}

func (k *comparer) slice(a, b Slc, path string) {
	xs, ok1 := k.s1.elemsOf(a)
	ys, ok2 := k.s2.elemsOf(b)

	if ok1 && ok2 {
		if len(xs) != len(ys) {
			k.differ(path)
			return
		}

		same := true
		for i := range xs {
			same = same && k.try(xs[i], ys[i], path)
		}

		if same {
			return
		}

		// the same in another order
		used := make([]bool, len(ys))

		for i := range xs {
			found := false

			for j := range ys {
				if !used[j] && k.try(xs[i], ys[j], path) {
					used[j], found = true, true
					break
				}
			}

			if !found {
				k.differ(path)
				return
			}
		}

		k.diffs = append(k.diffs, diff{path, true})

		return
	}

	if !k.j.provesEQ(a.len.sub(b.len)) || !k.j.provesEQ(a.off.sub(b.off)) {
		k.differ(path)
		return
	}

	k.obj(a.obj, b.obj, path)
}

func (k *comparer) obj(i1, i2 ObjID, path string) {
	if k.seen[[2]ObjID{i1, i2}] {
		return
	}

	k.seen[[2]ObjID{i1, i2}] = true

	o1, o2 := k.s1.obj(i1), k.s2.obj(i2)

	switch {
	case o1 == nil && o2 == nil:
		if i1 != i2 {
			k.differ(path)
		}

		return
	case o1 == nil || o2 == nil || o1.kind != o2.kind:
		k.differ(path)
		return
	case o1 == o2 && i1 == i2:
		if o1.kind == 'v' {
			k.val(o1.val, o2.val, path, o1.typ)
		}

		return
	}

	switch o1.kind {
	case 'v':
		k.val(o1.val, o2.val, path, o1.typ)
	case 'm':
		k.maps(o1, o2, path)
	default:
		if o1.conc && o2.conc {
			if len(o1.elems) != len(o2.elems) {
				k.differ(path)
				return
			}

			for i := range o1.elems {
				k.val(o1.elems[i], o2.elems[i], fmt.Sprintf("%s[%d]", path, i), o1.typ)
			}

			return
		}

		if o1.term != o2.term || len(o1.known) != len(o2.known) {
			k.differ(path)
			return
		}

		for i, v := range o1.known {
			if w, ok := o2.known[i]; !ok || !k.try(v, w, path) {
				k.differ(path)
				return
			}
		}
	}
}

// maps compares two maps key by key.
func (k *comparer) maps(o1, o2 *Obj, path string) {
	if o1.conc != o2.conc || !o1.conc && o1.term != o2.term {
		k.differ(path)
		return
	}

	mt := o1.typ.Underlying().(*types.Map)
	find := func(o *Obj, key Val) (Val, bool) {
		for i := len(o.keys) - 1; i >= 0; i-- {
			switch eq := k.keyEq(k.j, o.keys[i], key, mt.Key()); {
			case k.j.decide(eq) == 1:
				return o.elems[i], true
			case k.j.decide(eq) != 0 && !k.j.holds(bNot(eq)):
				return nil, false
			}
		}

		if o.conc {
			return absentVal{}, true
		}

		return nil, true
	}

	term := func(key Val) string { return "map:" + o1.term + "[" + valKey(key) + "]" }

	for _, key := range append(slices.Clone(o1.keys), o2.keys...) {
		v1, ok1 := find(o1, key)
		v2, ok2 := find(o2, key)

		if !ok1 || !ok2 {
			k.differ(path + " (keys)")
			return
		}

		_, gone1 := v1.(absentVal)
		_, gone2 := v2.(absentVal)

		switch {
		case v1 == nil && v2 == nil:
		case v1 == nil || v2 == nil:
			// only one of them set it: it has to be what was there before
			v, gone := v1, gone1
			if v1 == nil {
				v, gone = v2, gone2
			}

			has := k.j.decide(bddVar(atomOf("has " + term(key))))
			if gone && has == 0 || !gone && has == 1 && k.try(v, k.fresh(k.j, mt.Elem(), term(key)), path) {
				continue
			}

			k.differ(path)

			return
		case gone1 || gone2:
			if gone1 != gone2 {
				k.differ(path)
				return
			}
		default:
			k.val(v1, v2, path+"[]", mt.Elem())
		}
	}
}

// run interprets the function for one order.
func (o *order) runOrder(perm []int, args func(st *State) ([]Val, []Val)) []Outcome {
	saved, tag := freshCount, freshTag
	freshCount, freshTag = 0, strings.ReplaceAll(o.id, ".", "-")+":"
	o.perm, o.tagged, o.starts = perm, false, 0
	o.srcObj = 0

	if o.source != nil {
		// what happens before the call is the same in each order
		o.maxNodes, o.maxStates, o.coarse = 4, 400, true
	}

	defer func() { freshCount, freshTag = saved, tag }()

	st := o.newState()
	as, bs := args(st)

	return live(o.run(o.fn, as, bs, st, nil, nil, false))
}

func (o *order) decide(args func(st *State) ([]Val, []Val)) (diffs map[diff]bool, compared int) {
	o.fmaps, o.ordFlt = true, true
	o.maxNodes, o.maxStates = 1<<20, 1<<20
	o.hooks.rangeM = o.rangeM
	ids := map[types.Type]int{}
	o.keyID = func(t types.Type) int {
		i, ok := ids[t]
		if !ok {
			i, _, _ = o.uniq(t)
			ids[t] = i
		}

		return i
	}
	o.hooks.call = o.call
	diffs = map[diff]bool{}

	o.looped = map[*ssa.BasicBlock]bool{}
	for _, b := range o.fn.Blocks {
		o.looped[b] = inCycle(b)
	}

	ps := perms(o.n)
	base := o.runOrder(ps[0], args)

	if os.Getenv("ANALYZER_DEBUG") != "" {
		fmt.Println(o.id, fname(o.fn), len(base), "paths")
	}

	for _, p := range ps[1:] {
		for _, o2 := range o.runOrder(p, args) {
			neg := negKeys(o2.st)

			for _, o1 := range base {
				if !o.started(o1.st) || !o.started(o2.st) || !valEq(o1.st.gv["started"], o2.st.gv["started"]) {
					continue
				}

				if !compatible(o1.st, o2.st, neg) {
					continue
				}

				j := o1.st.fork()

				for _, c := range o2.st.cons {
					if !j.dead {
						j.assume(bGE(c))
					}
				}

				if j.dead || !j.assume(o2.st.facts) || infeasible(j.cons) {
					continue
				}

				compared++
				if os.Getenv("ANALYZER_DEBUG") == "2" && compared%200 == 0 {
					fmt.Println(compared)
				}

				j.cases(func(j *State) {
					for _, d := range o.compare(j, o1, o2) {
						if os.Getenv("ANALYZER_DEBUG") == "2" && !diffs[d] {
							fmt.Println(o.id, fname(o.fn), d, o1.vals, o2.vals, facts(j))
							for i := range o1.vals {
								a, _ := o1.st.elemsOf(o1.vals[i])
								b, _ := o2.st.elemsOf(o2.vals[i])
								fmt.Println(a, b)
							}
						}

						diffs[d] = true
					}
				})
			}
		}
	}

	return diffs, compared
}

// compatible is a quick look for a contradiction of two states.
func compatible(a, b *State, neg []string) bool {
	if bAnd(a.facts, b.facts) == bddFalse {
		return false
	}

	for _, k := range neg {
		if a.ckeys[k] {
			return false
		}
	}

	return true
}

func negKeys(st *State) []string {
	var out []string
	for _, c := range st.cons {
		out = append(out, c.neg().addConst(-1).normGE().key())
	}

	return out
}

// cases visits the ways the numeric conditions of a state may be decided.
func (st *State) cases(do func(*State)) { st.casesFrom(map[int]bool{}, do) }

func (st *State) casesFrom(done map[int]bool, do func(*State)) {
	if st.dead || st.facts == bddFalse {
		return
	}

	for _, a := range bddSupport(st.facts) {
		if atoms[a].num == nil || done[a] {
			continue
		}

		done[a] = true
		defer delete(done, a)

		for _, v := range []bool{true, false} {
			n := st.fork()

			b := bddVar(a)
			if !v {
				b = bNot(b)
			}

			if n.assume(b) && !infeasible(n.cons) {
				n.casesFrom(done, do)
			}
		}

		return
	}

	do(st)
}

func (o *order) compare(j *State, o1, o2 Outcome) []diff {
	k := &comparer{order: o, j: j, s1: o1.st, s2: o2.st, seen: map[[2]ObjID]bool{}}

	if o1.panic != o2.panic {
		k.differ("panic")
		return k.diffs
	}

	for i := range o1.vals {
		if i < len(o2.vals) {
			k.val(o1.vals[i], o2.vals[i], fmt.Sprintf("result %d", i), o.fn.Signature.Results().At(i).Type())
		}
	}

	for i := 0; ; i++ {
		n := fmt.Sprintf("event%03d", i)
		e1, e2 := o1.st.gv[n], o2.st.gv[n]

		if e1 != nil || e2 != nil {
			k.val(e1, e2, "call", nil)
		}

		if i > len(o1.st.gv)+len(o2.st.gv) {
			break
		}
	}

	// all memory that was there before
	ids := map[ObjID]bool{}

	for _, h := range []map[ObjID]*Obj{o1.st.heap, o2.st.heap} {
		for id := range h {
			if o.lazyInfo[id] != nil || o.gname[id] != nil {
				ids[id] = true
			}
		}
	}

	var sorted []ObjID
	for id := range ids {
		sorted = append(sorted, id)
	}

	slices.Sort(sorted)

	for _, id := range sorted {
		name := ""
		if ob := o1.st.obj(id); ob != nil {
			name = ob.name
		}

		k.obj(id, id, name)
	}

	return k.diffs
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}

	var out [][]int

	for _, p := range perms(n - 1) {
		for i := len(p); i >= 0; i-- {
			out = append(out, slices.Insert(slices.Clone(p), i, n-1))
		}
	}

	return out
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}

	var rec func(c *ssa.BasicBlock) bool
	rec = func(c *ssa.BasicBlock) bool {
		for _, s := range c.Succs {
			if s == b {
				return true
			}

			if !seen[s] {
				seen[s] = true

				if rec(s) {
					return true
				}
			}
		}

		return false
	}

	return rec(b)
}

// fieldOf splits "pkg.Type.field" of a difference.
func (p *Prog) fieldReads(path string) ([]*ssa.FieldAddr, []*ssa.Field) {
	var as []*ssa.FieldAddr

	var fs []*ssa.Field

	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if t := deref(in.X.Type()); fieldPath(t, in.Field) == path {
					as = append(as, in)
				}
			case *ssa.Field:
				if fieldPath(in.X.Type(), in.Field) == path {
					fs = append(fs, in)
				}
			}
		})
	}

	return as, fs
}

// isField reports that a path names a field of a struct.
func (p *Prog) isField(path string) bool {
	as, fs := p.fieldReads(path)
	return len(as)+len(fs) > 0
}

func fieldPath(t types.Type, i int) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}

	return typeName(t) + "." + s.Field(i).Name()
}

// uniqueField is the field of a symbol that identifies it, the one of its kind,
// and the kinds it is made with.
func uniqueField(p *Prog) func(t types.Type) (int, int, []constant.Value) {
	return func(t types.Type) (int, int, []constant.Value) {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return -1, -1, nil
		}

		id, kind := -1, -1

		for i := 0; i < s.NumFields(); i++ {
			switch ft := types.Unalias(s.Field(i).Type()).(type) {
			case *types.Basic:
				if ft.Info()&types.IsInteger == 0 || id >= 0 {
					return -1, -1, nil
				}

				id = i
			case *types.Named:
				if _, ok := ft.Underlying().(*types.Basic); !ok || kind >= 0 {
					return -1, -1, nil
				}

				kind = i
			default:
				return -1, -1, nil
			}
		}

		if id < 0 || kind < 0 {
			return -1, -1, nil
		}

		return id, kind, symbolKinds(p, t, id, kind)
	}
}

// symbolKinds are the constants that values of a type are made with, whose
// identity is not a constant.
func symbolKinds(p *Prog, t types.Type, id, kind int) []constant.Value {
	ids := map[ssa.Value]bool{}
	kinds := map[ssa.Value][]constant.Value{}

	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}

			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), t) {
				return
			}

			c, isConst := s.Val.(*ssa.Const)

			switch fa.Field {
			case id:
				if !isConst {
					ids[fa.X] = true
				}
			case kind:
				if isConst {
					kinds[fa.X] = append(kinds[fa.X], c.Value)
				} else {
					// any of the declared ones
					kinds[fa.X] = append(kinds[fa.X], nil)
				}
			}
		})
	}

	var out []constant.Value

	all := false

	for v := range ids {
		for _, k := range kinds[v] {
			if k == nil {
				all = true
				continue
			}

			out = append(out, k)
		}
	}

	if all {
		// a maker of symbols: the kinds are the constants it is called with
		named, _ := types.Unalias(t.Underlying().(*types.Struct).Field(kind).Type()).(*types.Named)
		for _, f := range p.all {
			eachInstr(f, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, a := range c.Common().Args {
						if k, ok := a.(*ssa.Const); ok && types.Identical(k.Type(), named) {
							out = append(out, k.Value)
						}
					}
				}
			})
		}
	}

	return out
}

func checkL01(c *Check) {
	p := c.prog("linux")
	uniq := uniqueField(p)
	n := 2

	if c.tier == "thorough" {
		n = 3
	}

	unordered := map[*ssa.Function]map[int]bool{}
	fieldsOK := map[string]string{}
	loops := 0

	// what may differ: fields nobody reads, results that are gone through in any
	// order themselves
	judge := func(fn *ssa.Function, construct, pos string, diffs map[diff]bool, compared int) {
		var bad []string

		for d := range diffs {
			var r int

			switch {
			case p.isField(d.path):
				why, ok := fieldsOK[d.path]
				if !ok {
					why = p.orderRead(d.path, fn)
					fieldsOK[d.path] = why
				}

				if why != "" && !d.perm {
					why = d.path + " differs with the order of the iteration"
				}

				if why != "" {
					bad = append(bad, why)
				}
			case d.perm && strings.HasPrefix(d.path, "result "):
				fmt.Sscanf(d.path, "result %d", &r)

				if unordered[fn] == nil {
					unordered[fn] = map[int]bool{}
				}

				unordered[fn][r] = true
			default:
				bad = append(bad, d.path+" differs with the order of the iteration")
			}
		}

		sort.Strings(bad)

		if compared == 0 {
			bad = append(bad, "no two orders could be compared")
		}

		c.want(len(bad) == 0, "order", construct, pos, strings.Join(bad, "; "))
	}

	k := 0
	initLoops := map[*ssa.Package][]*ssa.Range{}

	for _, fn := range p.all {
		eachInstr(fn, func(in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok {
				checkIterators(c, p, fn, call)
			}

			r, ok := in.(*ssa.Range)
			if !ok {
				return
			}

			if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
				return
			}

			loops++
			k++

			if p.duringInit(fn) {
				// the tables it goes through are known
				initLoops[fn.Pkg] = append(initLoops[fn.Pkg], r)
				return
			}

			construct := fmt.Sprintf("iteration of %s in %s", r.X.Type().Underlying(), fname(fn))

			for i, args := range p.funcArgs(fn) {
				o := &order{ai: newAI(c, p), id: fmt.Sprintf("o%d.%d", k, i), fn: fn, target: r, n: n, uniq: uniq}
				diffs, compared := o.decide(o.args(args))
				judge(fn, construct, p.pos(r.Pos()), diffs, compared)
			}
		})
	}

	for _, pkg := range p.spkgs {
		if ls := initLoops[pkg]; len(ls) > 0 {
			p.checkInitOrder(c, pkg, ls)
		}
	}

	c.note("iterations", loops)
	c.atLeast("order", 8)
	c.assume("the rows of a solver do not share their cells, and the symbols in its tables are identified by their number (L04)")

	// the callers of functions that return a slice in an unspecified order
	for done := map[*ssa.Call]bool{}; ; {
		var work []*ssa.Call

		for _, fn := range p.all {
			eachInstr(fn, func(in ssa.Instruction) {
				if call, ok := in.(*ssa.Call); ok && !done[call] && call.Common().StaticCallee() != nil && unordered[call.Common().StaticCallee()] != nil {
					work = append(work, call)
				}
			})
		}

		if len(work) == 0 {
			break
		}

		for _, call := range work {
			done[call] = true
			fn := call.Parent()

			var rs []int
			for r := range unordered[call.Common().StaticCallee()] {
				rs = append(rs, r)
			}

			sort.Ints(rs)

			for _, r := range rs {
				k++
				construct := fmt.Sprintf("result of %s in %s", fname(call.Common().StaticCallee()), fname(fn))

				for i, args := range p.funcArgs(fn) {
					o := &order{ai: newAI(c, p), id: fmt.Sprintf("u%d.%d", k, i), fn: fn, source: call, result: r, n: n, uniq: uniq}
					o.elemID = keyLeaves(call.Common().StaticCallee(), r)
					diffs, compared := o.decide(o.args(args))
					judge(fn, construct, p.pos(call.Pos()), diffs, compared)
				}
			}
		}
	}

	checkPureLayout(c, p)
}

// duringInit reports that a function runs only while its package is initialized.
func (p *Prog) duringInit(fn *ssa.Function) bool {
	if p.initOnly == nil {
		p.initOnly = map[*ssa.Function]bool{}
		uses := map[*ssa.Function][]ssa.Instruction{}
		other := map[*ssa.Function]bool{}

		for f := range p.allFn {
			if f.Synthetic != "" && f.Name() != "init" {
				continue // wrappers
			}

			eachInstr(f, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}

					c, ok := in.(*ssa.Call)
					if !ok || c.Common().StaticCallee() != g || slices.Contains(c.Common().Args, ssa.Value(g)) {
						other[g] = true
						continue
					}

					uses[g] = append(uses[g], in)
				}
			})
		}

		for changed := true; changed; {
			changed = false

			for _, f := range p.all {
				if p.initOnly[f] || other[f] || len(uses[f]) == 0 || f.Object() != nil && f.Object().Exported() || f.Signature.Recv() != nil || len(f.FreeVars) > 0 {
					continue
				}

				only := true

				for _, u := range uses[f] {
					g := u.Parent()
					if !(g.Name() == "init" && g.Synthetic != "" && g.Pkg == f.Pkg) && !p.initOnly[g] {
						only = false
					}
				}

				if only {
					p.initOnly[f], changed = true, true
				}
			}
		}
	}

	return p.initOnly[fn]
}

// checkInitOrder interprets the initialization of a package with each iteration
// forwards and backwards and compares what its variables are in the end: if the
// effects of any two elements did not commute, they would differ.
func (p *Prog) checkInitOrder(c *Check, pkg *ssa.Package, loops []*ssa.Range) {
	run := func(which *ssa.Range) (*initials, map[*ssa.Range]int) {
		saved, tag := freshCount, freshTag
		freshCount, freshTag = 0, "init:"

		defer func() { freshCount, freshTag = saved, tag }()

		seen := map[*ssa.Range]int{}
		in := &initials{vals: map[*ssa.Global]Val{}}

		return runInit(p, pkg, in, func(fr *Frame, st *State, r *ssa.Range, m Val) {
			ref, ok := m.(Ref)
			if !ok {
				return
			}

			o := st.obj(ref.obj)
			if o == nil || !o.conc {
				return
			}

			seen[r] = max(seen[r], len(o.keys))

			if r == which {
				o = o.copy()
				o.keys, o.elems = slices.Clone(o.keys), slices.Clone(o.elems)
				slices.Reverse(o.keys)
				slices.Reverse(o.elems)
				st.heap[ref.obj] = o
			}
		}), seen
	}

	base, seen := run(nil)
	if base.st == nil {
		anchorf("the initialization of %s cannot be interpreted", pkg.Pkg.Path())
	}

	for _, r := range loops {
		construct := fmt.Sprintf("iteration of %s in %s", r.X.Type().Underlying(), fname(r.Parent()))
		bad := ""

		if seen[r] == 0 {
			bad = "the table is not known"
		}

		rev, _ := run(r)
		if rev.st == nil {
			bad = "the initialization cannot be interpreted"
		}

		if bad == "" {
			for _, k := range inOrder(pkg.Members) {
				g, ok := pkg.Members[k].(*ssa.Global)
				if !ok {
					continue
				}

				d1, d2 := dump(base.st, base.vals[g]), dump(rev.st, rev.vals[g])
				if d1 != d2 {
					bad = "the variable " + g.Name() + " differs with the order of the iteration"
				}
			}
		}

		c.want(bad == "", "order", construct, p.pos(r.Pos()), bad)
	}
}

// dump writes a value out, the entries of maps sorted.
func dump(st *State, v Val) string {
	seen := map[ObjID]bool{}

	var val func(v Val) string

	obj := func(id ObjID) string {
		// memory that nothing is known about
		if l := st.x.lazyInfo[id]; l != nil {
			return "@" + l.name
		}

		o := st.obj(id)
		if o == nil || seen[id] {
			return "@"
		}

		seen[id] = true
		defer delete(seen, id)

		var es []string

		switch {
		case o.kind == 'v':
			return val(o.val)
		case !o.conc:
			return "?" + o.term
		case o.kind == 'm':
			for i := range o.keys {
				es = append(es, val(o.keys[i])+":"+val(o.elems[i]))
			}

			sort.Strings(es)
		default:
			for i := range o.elems {
				es = append(es, val(o.elems[i]))
			}
		}

		return "{" + strings.Join(es, " ") + "}"
	}

	val = func(v Val) string {
		switch v := v.(type) {
		case nil:
			return "nil"
		case Tup:
			var fs []string
			for _, f := range v.fs {
				fs = append(fs, val(f))
			}

			return "(" + strings.Join(fs, " ") + ")"
		case Ptr:
			if v.nil_ == bddTrue {
				return "nil"
			}

			if v.idx == nil {
				return "&" + fmt.Sprint(v.path) + obj(v.obj)
			}
		case Ref:
			if v.nil_ == bddTrue {
				return "nil"
			}

			if v.obj != 0 {
				return obj(v.obj)
			}
		case Slc:
			if es, ok := st.elemsOf(v); ok {
				var fs []string
				for _, e := range es {
					fs = append(fs, val(e))
				}

				return "[" + strings.Join(fs, " ") + "]"
			}

			return "[" + v.off.key() + ":" + v.len.key() + obj(v.obj) + "]"
		case Ifc:
			if v.typ != nil {
				return v.typ.String() + val(v.val)
			}
		}

		return valKey(v)
	}

	return val(v)
}

// keyLeaves are the parts of the elements of a result that have the type of a
// key of a map: they are different in each of them.
func keyLeaves(fn *ssa.Function, r int) []leaf {
	keys := map[string]bool{}

	eachInstr(fn, func(in ssa.Instruction) {
		if g, ok := in.(*ssa.Range); ok {
			if m, ok := g.X.Type().Underlying().(*types.Map); ok {
				keys[m.Key().String()] = true
			}
		}
	})

	sl, ok := fn.Signature.Results().At(r).Type().Underlying().(*types.Slice)
	if !ok {
		return nil
	}

	var out []leaf

	for _, l := range leaves(sl.Elem()) {
		if keys[l.typ.String()] {
			out = append(out, l)
		}
	}

	return out
}

// funcArgs are the functions that are passed to a function for its parameters,
// by index.
func (p *Prog) funcArgs(fn *ssa.Function) []map[int]*ssa.MakeClosure {
	has := false

	for _, q := range fn.Params {
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			has = true
		}
	}

	if !has {
		return []map[int]*ssa.MakeClosure{nil}
	}

	var out []map[int]*ssa.MakeClosure

	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok || call.Common().StaticCallee() != fn {
				return
			}

			m := map[int]*ssa.MakeClosure{}

			for i, a := range call.Common().Args {
				switch a := a.(type) {
				case *ssa.MakeClosure:
					m[i] = a
				case *ssa.Function:
					m[i] = &ssa.MakeClosure{Fn: a}
				}
			}

			out = append(out, m)
		})
	}

	if len(out) == 0 {
		out = append(out, nil)
	}

	return out
}

func (o *order) args(fs map[int]*ssa.MakeClosure) func(st *State) ([]Val, []Val) {
	return func(st *State) ([]Val, []Val) {
		var as, bs []Val

		for i, q := range o.fn.Params {
			if f := fs[i]; f != nil {
				fn := f.Fn.(*ssa.Function)

				var binds []Val
				for _, v := range fn.FreeVars {
					binds = append(binds, o.fresh(st, v.Type(), "bind "+v.Name()))
				}

				as = append(as, Fun{nil_: bddFalse, fn: fn, binds: binds})

				continue
			}

			v := o.fresh(st, q.Type(), "arg "+q.Name())
			if pt, ok := v.(Ptr); ok {
				pt.nil_ = bddFalse
				v = pt
			}

			as = append(as, v)
		}

		for _, v := range o.fn.FreeVars {
			bs = append(bs, o.fresh(st, v.Type(), "free "+v.Name()))
		}

		return as, bs
	}
}

// orderRead explains how the order of the elements of a field is observed, ""
// if it is not: it is only appended to, replaced or returned.
func (p *Prog) orderRead(path string, fn *ssa.Function) string {
	as, fs := p.fieldReads(path)
	if len(fs) > 0 {
		return fmt.Sprintf("%s, whose order is unspecified, is read at %s", path, p.pos(fs[0].Pos()))
	}

	var bad string

	for _, fa := range as {
		for _, r := range *fa.Referrers() {
			ld, ok := r.(*ssa.UnOp)
			if !ok {
				continue
			}

			for _, u := range *ld.Referrers() {
				switch u := u.(type) {
				case *ssa.DebugRef:
					continue
				case *ssa.Return:
					if fa.Parent() == fn {
						continue // the result is in the same order
					}
				case *ssa.Call:
					if b, ok := u.Common().Value.(*ssa.Builtin); ok {
						if b.Name() == "len" {
							continue
						}

						if b.Name() == "append" && u.Common().Args[0] == ld && onlyStoredTo(u, path) {
							continue
						}
					}
				}

				bad = fmt.Sprintf("%s, whose order is unspecified, is read at %s", path, p.pos(ld.Pos()))
			}
		}
	}

	return bad
}

func onlyStoredTo(v ssa.Value, path string) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}

		s, ok := r.(*ssa.Store)
		if !ok {
			return false
		}

		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || fieldPath(deref(fa.X.Type()), fa.Field) != path {
			return false
		}
	}

	return true
}

// checkIterators allows the iterators of package maps only where they are
// sorted or make another map.
func checkIterators(c *Check, p *Prog, fn *ssa.Function, call ssa.CallInstruction) {
	f := call.Common().StaticCallee()
	if f == nil {
		return
	}

	if o := f.Origin(); o != nil {
		f = o
	}

	name := fnFullName(f)

	switch name {
	case "maps.Keys", "maps.Values", "maps.All":
	case "reflect.Value.MapKeys", "reflect.Value.MapRange", "sync.Map.Range":
		c.fail("iterators", name+" in "+fname(fn), p.pos(call.Pos()), "the order of the iteration is unspecified")
		return
	default:
		return
	}

	v, ok := call.(*ssa.Call)
	good := ok

	if ok {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				g := r.Common().StaticCallee()
				if g != nil && g.Origin() != nil {
					g = g.Origin()
				}

				switch {
				case g == nil:
					good = false
				case name != "maps.Values" && (fnFullName(g) == "slices.Sorted" || fnFullName(g) == "slices.SortedFunc" || fnFullName(g) == "slices.SortedStableFunc"), fnFullName(g) == "maps.Collect", fnFullName(g) == "maps.Insert", fnFullName(g) == "slices.Sorted":
				default:
					good = false
				}
			default:
				good = false
			}
		}
	}

	c.want(good, "iterators", name+" in "+fname(fn), p.pos(call.Pos()), "the order of the iteration is unspecified and its elements are not sorted")
}

// checkPureLayout decides that splitting depends on nothing but its arguments.
func checkPureLayout(c *Check, p *Prog) {
	cg := newCalls(p)
	frozen := frozenGlobals(p)
	pure := map[string]bool{"math": true, "slices": true, "maps": true, "fmt": true, "errors": true, "cmp": true, "sort": true, "strings": true, "strconv": true, "unicode": true, "math/bits": true, "iter": true}

	var roots []*ssa.Function
	for _, f := range p.exportedMethods(p.named("", "Layout")) {
		rs := f.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if strings.HasSuffix(typeName(rs.At(i).Type()), ".Splitted") {
				roots = append(roots, f)
				break
			}
		}
	}

	if len(roots) == 0 {
		anchorf("no method of Layout returns split areas")
	}

	done := map[*ssa.Function]bool{}

	for _, root := range roots {
		cg.reach(root, func(f *ssa.Function, path []*ssa.Function) bool {
			if done[f] {
				return false
			}

			done[f] = true

			var bad []string

			eachInstr(f, func(in ssa.Instruction) {
				switch in := in.(type) {
				case *ssa.Go, *ssa.Select:
					bad = append(bad, "it is concurrent at "+p.pos(instrPos(in)))
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil && !p.inRepo(g) {
						if o := g.Origin(); o != nil {
							g = o
						}

						pkg := g.Pkg
						atomicAdd := pkg != nil && pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(g.Name(), "Add")
						locks := pkg != nil && pkg.Pkg.Path() == "sync"

						if pkg != nil && !pure[pkg.Pkg.Path()] && !atomicAdd && !locks {
							bad = append(bad, fnFullName(g)+" is called at "+p.pos(in.Pos()))
						}
					}
				}

				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || frozen[g] || !isRepoPath(g.Pkg.Pkg.Path()) {
						continue
					}

					if counterUse(in) {
						continue
					}

					bad = append(bad, "the variable "+g.Name()+", which changes, is used at "+p.pos(instrPos(in)))
				}
			})

			var names []string
			for _, q := range path {
				names = append(names, fname(q))
			}

			c.want(len(bad) == 0, "depends", fname(f), p.pos(f.Pos()), strings.Join(bad, "; "), names...)

			return true
		})
	}

	c.atLeast("depends", 12)
}

// counterUse reports that an instruction only draws a number from a counter.
func counterUse(in ssa.Instruction) bool {
	if call, ok := in.(ssa.CallInstruction); ok {
		g := call.Common().StaticCallee()
		if g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sync/atomic" && strings.HasPrefix(g.Name(), "Add") || g.Pkg.Pkg.Path() == "sync") {
			return true
		}
	}

	return false
}
