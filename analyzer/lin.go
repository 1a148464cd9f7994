package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Lin is an integer linear expression over symbols. Immutable.
type Lin struct {
	c int64
	t []term
}

type term struct {
	s Sym
	k int64
}

// Sym is a symbol that stands for an integer.
type Sym int

type symInfo struct {
	name     string
	bindable bool // made by a join
	lo, hi   *int64
	prod     *[2]Lin // the symbol is the product of the two
	b01      *int    // the symbol is 1 exactly when the atom holds, 0 otherwise
}

var (
	syms      []symInfo
	symByName = map[string]Sym{}
)

func symOf(name string) Sym {
	if s, ok := symByName[name]; ok {
		return s
	}

	s := Sym(len(syms))
	syms = append(syms, symInfo{name: name})
	symByName[name] = s

	return s
}

func i64(v int64) *int64 { return &v }

func freshSym(prefix string, bindable bool) Sym {
	s := symOf(freshName(prefix))
	syms[s].bindable = bindable

	return s
}

func linC(c int64) Lin { return Lin{c: c} }
func linS(s Sym) Lin   { return Lin{t: []term{{s, 1}}} }

func (l Lin) isConst() (int64, bool) { return l.c, len(l.t) == 0 }

// isSym reports that l is exactly one symbol.
func (l Lin) isSym() (Sym, bool) {
	if l.c == 0 && len(l.t) == 1 && l.t[0].k == 1 {
		return l.t[0].s, true
	}

	return 0, false
}

func satAdd(a, b int64) int64 {
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return math.MaxInt64
	}

	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64
	}

	return s
}

func (l Lin) add(o Lin) Lin {
	r := Lin{c: satAdd(l.c, o.c)}
	i, j := 0, 0

	for i < len(l.t) || j < len(o.t) {
		switch {
		case j >= len(o.t) || (i < len(l.t) && l.t[i].s < o.t[j].s):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || o.t[j].s < l.t[i].s:
			r.t = append(r.t, o.t[j])
			j++
		default:
			if k := l.t[i].k + o.t[j].k; k != 0 {
				r.t = append(r.t, term{l.t[i].s, k})
			}

			i++
			j++
		}
	}

	return r
}

func (l Lin) mulC(k int64) Lin {
	if k == 0 {
		return Lin{}
	}

	if k == 1 {
		return l
	}

	r := Lin{c: l.c * k}
	for _, t := range l.t {
		r.t = append(r.t, term{t.s, t.k * k})
	}

	return r
}

func (l Lin) neg() Lin             { return l.mulC(-1) }
func (l Lin) sub(o Lin) Lin        { return l.add(o.neg()) }
func (l Lin) addConst(c int64) Lin { return Lin{c: satAdd(l.c, c), t: l.t} }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}

	if b < 0 {
		b = -b
	}

	for b != 0 {
		a, b = b, a%b
	}

	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}

	return q
}

// normGE normalises the constraint l >= 0 over the integers.
func (l Lin) normGE() Lin {
	if len(l.t) == 0 {
		return l
	}

	var g int64
	for _, t := range l.t {
		g = gcd(g, t.k)
	}

	if g <= 1 {
		return l
	}

	r := Lin{c: floorDiv(l.c, g)}
	for _, t := range l.t {
		r.t = append(r.t, term{t.s, t.k / g})
	}

	return r
}

func (l Lin) eq(o Lin) bool {
	if l.c != o.c || len(l.t) != len(o.t) {
		return false
	}

	for i := range l.t {
		if l.t[i] != o.t[i] {
			return false
		}
	}

	return true
}

func (l Lin) key() string {
	var b strings.Builder

	for _, t := range l.t {
		b.WriteString(strconv.FormatInt(t.k, 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(int(t.s)))
		b.WriteByte('+')
	}

	b.WriteString(strconv.FormatInt(l.c, 10))

	return b.String()
}

func (l Lin) String() string {
	var b strings.Builder

	for i, t := range l.t {
		if i > 0 && t.k > 0 {
			b.WriteByte('+')
		}

		switch t.k {
		case 1:
		case -1:
			b.WriteByte('-')
		default:
			fmt.Fprintf(&b, "%d*", t.k)
		}

		b.WriteString(syms[t.s].name)
	}

	if len(l.t) == 0 {
		return strconv.FormatInt(l.c, 10)
	}

	if l.c > 0 {
		fmt.Fprintf(&b, "+%d", l.c)
	} else if l.c < 0 {
		fmt.Fprintf(&b, "%d", l.c)
	}

	return b.String()
}

func (l Lin) has(s Sym) (int64, bool) {
	for _, t := range l.t {
		if t.s == s {
			return t.k, true
		}
	}

	return 0, false
}

// subst replaces symbols.
func (l Lin) subst(m map[Sym]Lin) Lin {
	r := Lin{c: l.c}
	hit := false

	for _, t := range l.t {
		if e, ok := m[t.s]; ok {
			r = r.add(e.mulC(t.k))
			hit = true
		} else {
			r = r.add(Lin{t: []term{t}})
		}
	}

	if !hit {
		return l
	}

	return r
}

// ---------------------------------------------------------------------------
// feasibility of a system of constraints l >= 0 over the rationals: general
// simplex over free variables with lower bounds on the slack variables.

var lpCalls, lpPivots int

type lpKey string

var lpMemo = map[string]bool{}

func infeasible(cons []Lin) bool {
	// constant constraints, normalisation, duplicates
	seen := map[string]bool{}

	var cs []Lin

	for _, c := range cons {
		c = c.normGE()
		if v, ok := c.isConst(); ok {
			if v < 0 {
				return true
			}

			continue
		}

		k := c.key()
		if seen[k] {
			continue
		}

		seen[k] = true
		cs = append(cs, c)
	}

	if len(cs) < 2 {
		return false
	}

	keys := make([]string, 0, len(cs))
	for k := range seen {
		keys = append(keys, k)
	}

	sort.Strings(keys)
	mk := strings.Join(keys, ";")

	if r, ok := lpMemo[mk]; ok {
		return r
	}

	r := simplexInfeasible(cs)
	if len(lpMemo) > 200000 {
		lpMemo = map[string]bool{}
	}

	lpMemo[mk] = r

	return r
}

func simplexInfeasible(cs []Lin) bool {
	lpCalls++

	// columns
	col := map[Sym]int{}

	for _, c := range cs {
		for _, t := range c.t {
			if _, ok := col[t.s]; !ok {
				col[t.s] = len(col)
			}
		}
	}

	n, m := len(col), len(cs)

	// Fast path with small rationals, exact fallback.
	if r, ok := simplexFrac(cs, col, n, m); ok {
		return r
	}

	return simplexBig(cs, col, n, m)
}

type frac struct{ n, d int64 }

type fracOverflow struct{}

func mkFrac(n, d int64) frac {
	if d < 0 {
		n, d = -n, -d
	}

	if g := gcd(n, d); g > 1 {
		n /= g
		d /= g
	}

	return frac{n, d}
}

func mul64(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}

	r := a * b
	if r/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		panic(fracOverflow{})
	}

	return r
}

func add64(a, b int64) int64 {
	r := a + b
	if (a > 0 && b > 0 && r <= 0) || (a < 0 && b < 0 && r >= 0) {
		panic(fracOverflow{})
	}

	return r
}

func (a frac) mul(b frac) frac {
	g1, g2 := gcd(a.n, b.d), gcd(b.n, a.d)
	if g1 == 0 || g2 == 0 {
		return frac{0, 1}
	}

	return mkFrac(mul64(a.n/g1, b.n/g2), mul64(a.d/g2, b.d/g1))
}

func (a frac) add(b frac) frac {
	if a.d == b.d {
		return mkFrac(add64(a.n, b.n), a.d)
	}

	return mkFrac(add64(mul64(a.n, b.d), mul64(b.n, a.d)), mul64(a.d, b.d))
}

func (a frac) neg() frac { return frac{-a.n, a.d} }
func (a frac) inv() frac { return mkFrac(a.d, a.n) }
func (a frac) less(b frac) bool {
	return a.add(b.neg()).n < 0
}

func simplexFrac(cs []Lin, col map[Sym]int, n, m int) (res, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(fracOverflow); !is {
				panic(r)
			}

			res, ok = false, false
		}
	}()

	// variables 0..n-1 free (non-basic at 0), n..n+m-1 slacks (basic) with
	// slack_i = sum a_ij x_j and slack_i >= -c_i
	a := make([][]frac, m)
	low := make([]frac, n+m)
	hasLow := make([]bool, n+m)
	basic := make([]int, m)    // row -> var
	nonbasic := make([]int, n) // column -> var
	val := make([]frac, n+m)

	for i, c := range cs {
		a[i] = make([]frac, n)
		for j := range a[i] {
			a[i][j] = frac{0, 1}
		}

		for _, t := range c.t {
			a[i][col[t.s]] = frac{t.k, 1}
		}

		if c.c == math.MinInt64 {
			panic(fracOverflow{})
		}

		low[n+i] = frac{-c.c, 1}
		hasLow[n+i] = true
		basic[i] = n + i
		val[n+i] = frac{0, 1}
	}

	for j := 0; j < n; j++ {
		nonbasic[j] = j
		val[j] = frac{0, 1}
	}

	for iter := 0; iter < 2000; iter++ {
		// Bland: smallest basic variable that violates its bound
		row := -1

		for i := 0; i < m; i++ {
			v := basic[i]
			if hasLow[v] && val[v].less(low[v]) && (row < 0 || v < basic[row]) {
				row = i
			}
		}

		if row < 0 {
			return false, true
		}

		// must increase basic[row]: a non-basic variable with a positive
		// coefficient can grow; with a negative one it must be able to
		// decrease, i.e. be free or above its bound
		piv := -1

		for j := 0; j < n; j++ {
			k := a[row][j]
			if k.n == 0 {
				continue
			}

			v := nonbasic[j]
			can := k.n > 0 || !hasLow[v] || low[v].less(val[v])

			if can && (piv < 0 || v < nonbasic[piv]) {
				piv = j
			}
		}

		if piv < 0 {
			return true, true
		}

		lpPivots++

		bv, nv := basic[row], nonbasic[piv]
		delta := low[bv].add(val[bv].neg()).mul(a[row][piv].inv())
		val[nv] = val[nv].add(delta)
		val[bv] = low[bv]

		for i := 0; i < m; i++ {
			if i != row && a[i][piv].n != 0 {
				val[basic[i]] = val[basic[i]].add(a[i][piv].mul(delta))
			}
		}

		// pivot
		inv := a[row][piv].inv()
		for j := 0; j < n; j++ {
			if j == piv {
				a[row][j] = inv
			} else {
				a[row][j] = a[row][j].mul(inv).neg()
			}
		}

		for i := 0; i < m; i++ {
			if i == row {
				continue
			}

			k := a[i][piv]
			if k.n == 0 {
				continue
			}

			for j := 0; j < n; j++ {
				if j == piv {
					a[i][j] = k.mul(a[row][j])
				} else if a[row][j].n != 0 {
					a[i][j] = a[i][j].add(k.mul(a[row][j]))
				}
			}
		}

		basic[row], nonbasic[piv] = nv, bv
	}

	return false, true
}

func simplexBig(cs []Lin, col map[Sym]int, n, m int) bool {
	zero := new(big.Rat)
	a := make([][]*big.Rat, m)
	low := make([]*big.Rat, n+m)
	basic := make([]int, m)
	nonbasic := make([]int, n)
	val := make([]*big.Rat, n+m)

	for i, c := range cs {
		a[i] = make([]*big.Rat, n)
		for j := range a[i] {
			a[i][j] = new(big.Rat)
		}

		for _, t := range c.t {
			a[i][col[t.s]] = new(big.Rat).SetInt64(t.k)
		}

		low[n+i] = new(big.Rat).Neg(new(big.Rat).SetInt64(c.c))
		basic[i] = n + i
		val[n+i] = new(big.Rat)
	}

	for j := 0; j < n; j++ {
		nonbasic[j] = j
		val[j] = new(big.Rat)
	}

	for iter := 0; iter < 2000; iter++ {
		row := -1

		for i := 0; i < m; i++ {
			v := basic[i]
			if low[v] != nil && val[v].Cmp(low[v]) < 0 && (row < 0 || v < basic[row]) {
				row = i
			}
		}

		if row < 0 {
			return false
		}

		piv := -1

		for j := 0; j < n; j++ {
			k := a[row][j].Cmp(zero)
			if k == 0 {
				continue
			}

			v := nonbasic[j]
			can := k > 0 || low[v] == nil || low[v].Cmp(val[v]) < 0

			if can && (piv < 0 || v < nonbasic[piv]) {
				piv = j
			}
		}

		if piv < 0 {
			return true
		}

		bv, nv := basic[row], nonbasic[piv]
		delta := new(big.Rat).Sub(low[bv], val[bv])
		delta.Quo(delta, a[row][piv])
		val[nv] = new(big.Rat).Add(val[nv], delta)
		val[bv] = new(big.Rat).Set(low[bv])

		for i := 0; i < m; i++ {
			if i != row && a[i][piv].Cmp(zero) != 0 {
				val[basic[i]] = new(big.Rat).Add(val[basic[i]], new(big.Rat).Mul(a[i][piv], delta))
			}
		}

		inv := new(big.Rat).Inv(a[row][piv])
		for j := 0; j < n; j++ {
			if j == piv {
				a[row][j] = inv
			} else {
				a[row][j] = new(big.Rat).Neg(new(big.Rat).Mul(a[row][j], inv))
			}
		}

		for i := 0; i < m; i++ {
			if i == row {
				continue
			}

			k := a[i][piv]
			if k.Cmp(zero) == 0 {
				continue
			}

			for j := 0; j < n; j++ {
				if j == piv {
					a[i][j] = new(big.Rat).Mul(k, a[row][j])
				} else {
					a[i][j] = new(big.Rat).Add(a[i][j], new(big.Rat).Mul(k, a[row][j]))
				}
			}
		}

		basic[row], nonbasic[piv] = nv, bv
	}

	return false
}
