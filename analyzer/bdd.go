package main

import (
	"fmt"
	"sort"
	"strings"
)

// A bdd node is a boolean function of atoms, hash-consed: two functions are
// the same exactly when their pointers are.
type bdd struct {
	id     int
	atom   int // -1 for terminals
	lo, hi *bdd
}

var (
	bddFalse = &bdd{id: 0, atom: 1 << 30}
	bddTrue  = &bdd{id: 1, atom: 1 << 30}

	bddUnique = map[[3]int]*bdd{}
	bddNext   = 2
	bddIte    = map[[3]int]*bdd{}
)

func bddMk(atom int, lo, hi *bdd) *bdd {
	if lo == hi {
		return lo
	}

	k := [3]int{atom, lo.id, hi.id}
	if n, ok := bddUnique[k]; ok {
		return n
	}

	n := &bdd{id: bddNext, atom: atom, lo: lo, hi: hi}
	bddNext++
	bddUnique[k] = n

	return n
}

func bddVar(atom int) *bdd { return bddMk(atom, bddFalse, bddTrue) }

func bddConst(b bool) *bdd {
	if b {
		return bddTrue
	}

	return bddFalse
}

func (n *bdd) cof(atom int) (lo, hi *bdd) {
	if n.atom == atom {
		return n.lo, n.hi
	}

	return n, n
}

func ite(f, g, h *bdd) *bdd {
	switch {
	case f == bddTrue:
		return g
	case f == bddFalse:
		return h
	case g == h:
		return g
	case g == bddTrue && h == bddFalse:
		return f
	}

	k := [3]int{f.id, g.id, h.id}
	if r, ok := bddIte[k]; ok {
		return r
	}

	a := min(f.atom, g.atom, h.atom)
	f0, f1 := f.cof(a)
	g0, g1 := g.cof(a)
	h0, h1 := h.cof(a)
	r := bddMk(a, ite(f0, g0, h0), ite(f1, g1, h1))
	bddIte[k] = r

	return r
}

func bAnd(a, b *bdd) *bdd { return ite(a, b, bddFalse) }
func bOr(a, b *bdd) *bdd  { return ite(a, bddTrue, b) }
func bNot(a *bdd) *bdd    { return ite(a, bddFalse, bddTrue) }
func bXor(a, b *bdd) *bdd { return ite(a, bNot(b), b) }
func bIff(a, b *bdd) *bdd { return ite(a, b, bNot(b)) }
func bImp(a, b *bdd) *bdd { return ite(a, b, bddTrue) }

func (n *bdd) isConst() bool { return n == bddTrue || n == bddFalse }

func bddSize(n *bdd) int {
	seen := map[*bdd]bool{}

	var rec func(*bdd)
	rec = func(n *bdd) {
		if n.isConst() || seen[n] {
			return
		}

		seen[n] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(n)

	return len(seen)
}

func bddSupport(n *bdd) []int {
	if r, ok := supportMemo[n]; ok {
		return r
	}

	seen := map[*bdd]bool{}
	set := map[int]bool{}

	var rec func(*bdd)
	rec = func(n *bdd) {
		if n.isConst() || seen[n] {
			return
		}

		seen[n] = true
		set[n.atom] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(n)

	out := make([]int, 0, len(set))
	for a := range set {
		out = append(out, a)
	}

	sort.Ints(out)

	supportMemo[n] = out

	return out
}

// bddRestrict fixes atoms.
func bddRestrict(n *bdd, vals map[int]bool) *bdd {
	if len(vals) == 0 {
		return n
	}

	last := 0
	for a := range vals {
		last = max(last, a)
	}

	memo := map[*bdd]*bdd{}

	var rec func(*bdd) *bdd
	rec = func(n *bdd) *bdd {
		if n.atom > last {
			return n
		}

		if r, ok := memo[n]; ok {
			return r
		}

		var r *bdd
		if v, ok := vals[n.atom]; ok {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = bddMk(n.atom, rec(n.lo), rec(n.hi))
		}

		memo[n] = r

		return r
	}

	return rec(n)
}

var supportMemo = map[*bdd][]int{}

var impliedMemo = map[*bdd][]literal{}

// bddImplied are the literals that follow from a function, by atom.
func bddImplied(n *bdd) []literal {
	if n.isConst() {
		return nil
	}

	if r, ok := impliedMemo[n]; ok {
		return r
	}

	var out []literal

	switch {
	case n.lo == bddFalse:
		out = append([]literal{{n.atom, true}}, bddImplied(n.hi)...)
	case n.hi == bddFalse:
		out = append([]literal{{n.atom, false}}, bddImplied(n.lo)...)
	default:
		a, b := bddImplied(n.lo), bddImplied(n.hi)
		if n.lo == bddTrue || n.hi == bddTrue {
			a = nil
		}

		for i, k := 0, 0; i < len(a) && k < len(b); {
			switch {
			case a[i] == b[k]:
				out = append(out, a[i])
				i++
				k++
			case a[i].atom < b[k].atom || a[i].atom == b[k].atom:
				i++
			default:
				k++
			}
		}
	}

	impliedMemo[n] = out

	return out
}

// bddSubst replaces atoms by functions.
func bddSubst(n *bdd, sub map[int]*bdd) *bdd {
	memo := map[*bdd]*bdd{}

	var rec func(*bdd) *bdd
	rec = func(n *bdd) *bdd {
		if n.isConst() {
			return n
		}

		if r, ok := memo[n]; ok {
			return r
		}

		v, ok := sub[n.atom]
		if !ok {
			v = bddVar(n.atom)
		}

		r := ite(v, rec(n.hi), rec(n.lo))
		memo[n] = r

		return r
	}

	return rec(n)
}

// bddExists projects atoms away.
func bddExists(n *bdd, drop func(atom int) bool) *bdd {
	for _, a := range bddSupport(n) {
		if drop(a) {
			n = bOr(bddRestrict(n, map[int]bool{a: false}), bddRestrict(n, map[int]bool{a: true}))
		}
	}

	return n
}

type literal struct {
	atom int
	pos  bool
}

// bddCubes enumerates disjoint cubes of n, at most limit of them.
func bddCubes(n *bdd, limit int) ([][]literal, bool) {
	var out [][]literal

	ok := true

	var rec func(n *bdd, cur []literal)
	rec = func(n *bdd, cur []literal) {
		if !ok || n == bddFalse {
			return
		}

		if n == bddTrue {
			if len(out) >= limit {
				ok = false
				return
			}

			out = append(out, append([]literal(nil), cur...))

			return
		}

		rec(n.lo, append(cur, literal{n.atom, false}))
		rec(n.hi, append(cur, literal{n.atom, true}))
	}
	rec(n, nil)

	return out, ok
}

// atoms

type atomInfo struct {
	key      string
	num      *Lin // numeric atom: num >= 0
	bindable bool // made by a join
}

var (
	atoms    []atomInfo
	atomByID = map[string]int{}
)

func atomOf(key string) int {
	if a, ok := atomByID[key]; ok {
		return a
	}

	a := len(atoms)
	atoms = append(atoms, atomInfo{key: key})
	atomByID[key] = a

	return a
}

var freshCount int

func freshName(prefix string) string {
	freshCount++
	return fmt.Sprintf("%s#%s%d", prefix, freshTag, freshCount)
}

// freshTag tells runs apart that count anew.
var freshTag string

func freshAtom(prefix string, bindable bool) int {
	a := atomOf(freshName(prefix))
	atoms[a].bindable = bindable

	return a
}

// bGE is the formula l >= 0.
func bGE(l Lin) *bdd {
	l = l.normGE()
	if c, ok := l.isConst(); ok {
		return bddConst(c >= 0)
	}

	neg := false
	if l.t[0].k < 0 {
		l = l.neg().addConst(-1).normGE()
		neg = true
	}

	key := "N:" + l.key()
	a := atomOf(key)
	if atoms[a].num == nil {
		ll := l
		atoms[a].num = &ll
	}

	if neg {
		return bNot(bddVar(a))
	}

	return bddVar(a)
}

func bEQ(l Lin) *bdd { return bAnd(bGE(l), bGE(l.neg())) }

func (n *bdd) String() string {
	if n == bddTrue {
		return "true"
	}

	if n == bddFalse {
		return "false"
	}

	cubes, ok := bddCubes(n, 6)
	if !ok {
		return fmt.Sprintf("bdd(%d atoms)", len(bddSupport(n)))
	}

	var parts []string
	for _, c := range cubes {
		var ls []string
		for _, l := range c {
			s := atoms[l.atom].key
			if atoms[l.atom].num != nil {
				s = atoms[l.atom].num.String() + ">=0"
			}

			if !l.pos {
				s = "!(" + s + ")"
			}

			ls = append(ls, s)
		}

		parts = append(parts, strings.Join(ls, " & "))
	}

	return strings.Join(parts, " | ")
}
