package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"
)

func (x *Interp) toBV(v Val, w int) (BV, bool) {
	switch v := v.(type) {
	case BV:
		if len(v.bits) == w {
			return v, true
		}

		r := BV{make([]*bdd, w)}
		for i := range r.bits {
			r.bits[i] = bddFalse
			if i < len(v.bits) {
				r.bits[i] = v.bits[i]
			}
		}

		return r, true
	case Num:
		if c, ok := v.l.isConst(); ok {
			return bvConst(uint64(c), w), true
		}
	}

	return BV{}, false
}

func bvAdd(a, b BV, carry *bdd) BV {
	r := BV{make([]*bdd, len(a.bits))}
	for i := range a.bits {
		r.bits[i] = bXor(bXor(a.bits[i], b.bits[i]), carry)
		carry = bOr(bAnd(a.bits[i], b.bits[i]), bAnd(carry, bXor(a.bits[i], b.bits[i])))
	}

	return r
}

func bvLess(a, b BV, signed bool) *bdd {
	r := bddFalse

	for i := range a.bits {
		x, y := a.bits[i], b.bits[i]
		if signed && i == len(a.bits)-1 {
			x, y = y, x
		}

		r = ite(bXor(x, y), y, r)
	}

	return r
}

func bvEq(a, b BV) *bdd {
	r := bddTrue
	for i := range a.bits {
		r = bAnd(r, bIff(a.bits[i], b.bits[i]))
	}

	return r
}

func (x *Interp) binop(st *State, op token.Token, a, b Val, t, rt types.Type) Val {
	switch op {
	case token.EQL:
		return Boo{x.equal(st, a, b, t)}
	case token.NEQ:
		return Boo{bNot(x.equal(st, a, b, t))}
	}

	_, abv := a.(BV)
	_, bbv := b.(BV)

	if abv || bbv {
		if r := x.bvop(op, a, b, t); r != nil {
			return r
		}
	}

	switch av := a.(type) {
	case Num:
		if bn, ok := b.(Num); ok {
			if r := x.numop(st, op, av.l, bn.l, t); r != nil {
				return r
			}
		}
	case Flt:
		if bf, ok := b.(Flt); ok {
			if x.ordFlt {
				p, q := fltLin(av), fltLin(bf)

				switch op {
				case token.LSS:
					return Boo{bGE(q.sub(p).addConst(-1))}
				case token.LEQ:
					return Boo{bGE(q.sub(p))}
				case token.GTR:
					return Boo{bGE(p.sub(q).addConst(-1))}
				case token.GEQ:
					return Boo{bGE(p.sub(q))}
				}
			}

			return x.fltop(st, op, av, bf)
		}
	case Str:
		if bs, ok := b.(Str); ok {
			if op == token.ADD {
				return av.cat(bs)
			}

			ca, ok1 := av.constant()
			cb, ok2 := bs.constant()

			if ok1 && ok2 {
				switch op {
				case token.LSS:
					return Boo{bddConst(ca < cb)}
				case token.LEQ:
					return Boo{bddConst(ca <= cb)}
				case token.GTR:
					return Boo{bddConst(ca > cb)}
				case token.GEQ:
					return Boo{bddConst(ca >= cb)}
				}
			}
		}
	}

	if _, ok := a.(Opq); ok {
		if bn, ok := b.(Num); ok && isInt(t) {
			if r := x.numop(st, op, numOf(a), bn.l, t); r != nil {
				return r
			}
		}
	}

	return x.fresh(st, rt, fmt.Sprintf("(%s%s%s)", valKey(a), op, valKey(b)))
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Interp) bvop(op token.Token, a, b Val, t types.Type) Val {
	w := intWidth(t)

	if op == token.SHL || op == token.SHR {
		av, ok := x.toBV(a, w)
		if !ok {
			return nil
		}

		var k int64

		switch bv := b.(type) {
		case Num:
			c, ok := bv.l.isConst()
			if !ok {
				return nil
			}

			k = c
		case BV:
			c, ok := bv.constant()
			if !ok {
				return nil
			}

			k = int64(c)
		default:
			return nil
		}

		r := BV{make([]*bdd, w)}
		for i := range r.bits {
			r.bits[i] = bddFalse

			j := int64(i) - k
			if op == token.SHR {
				j = int64(i) + k
			}

			if j >= 0 && int(j) < w {
				r.bits[i] = av.bits[j]
			}
		}

		return r
	}

	av, ok1 := x.toBV(a, w)
	bv, ok2 := x.toBV(b, w)

	if !ok1 || !ok2 {
		return nil
	}

	bit := func(f func(p, q *bdd) *bdd) Val {
		r := BV{make([]*bdd, w)}
		for i := range r.bits {
			r.bits[i] = f(av.bits[i], bv.bits[i])
		}

		return r
	}

	signed := !isUnsigned(t)

	switch op {
	case token.AND:
		return bit(bAnd)
	case token.OR:
		return bit(bOr)
	case token.XOR:
		return bit(bXor)
	case token.AND_NOT:
		return bit(func(p, q *bdd) *bdd { return bAnd(p, bNot(q)) })
	case token.ADD:
		return bvAdd(av, bv, bddFalse)
	case token.SUB:
		n := BV{make([]*bdd, w)}
		for i := range n.bits {
			n.bits[i] = bNot(bv.bits[i])
		}

		return bvAdd(av, n, bddTrue)
	case token.LSS:
		return Boo{bvLess(av, bv, signed)}
	case token.GTR:
		return Boo{bvLess(bv, av, signed)}
	case token.LEQ:
		return Boo{bNot(bvLess(bv, av, signed))}
	case token.GEQ:
		return Boo{bNot(bvLess(av, bv, signed))}
	}

	return nil
}

func (x *Interp) numop(st *State, op token.Token, a, b Lin, t types.Type) Val {
	ca, oka := a.isConst()
	cb, okb := b.isConst()

	switch op {
	case token.ADD:
		return Num{x.wrapped(st, a.add(b), t)}
	case token.SUB:
		r := x.wrapped(st, a.sub(b), t)
		if isUnsigned(t) && !st.proves(r) {
			return x.fresh(st, t, fmt.Sprintf("(%s-%s)", a.key(), b.key()))
		}

		return Num{r}
	case token.MUL:
		if r, ok := mulLin(a, b); ok {
			return Num{r}
		}

		return x.fresh(st, t, fmt.Sprintf("(%s*%s)", a.key(), b.key()))
	case token.LSS:
		return Boo{bGE(b.sub(a).addConst(-1))}
	case token.LEQ:
		return Boo{bGE(b.sub(a))}
	case token.GTR:
		return Boo{bGE(a.sub(b).addConst(-1))}
	case token.GEQ:
		return Boo{bGE(a.sub(b))}
	case token.QUO, token.REM:
		if oka && okb && cb != 0 {
			if op == token.QUO {
				return Num{linC(ca / cb)}
			}

			return Num{linC(ca % cb)}
		}

		if okb && cb > 0 {
			q := x.divSym(st, a, cb)
			if op == token.QUO {
				return Num{q}
			}

			return Num{a.sub(q.mulC(cb))}
		}

		// a = q*b + r with 0 <= r < b
		if st.proves(b.addConst(-1)) && st.proves(a) {
			q := linS(symOf(fmt.Sprintf("(%s / %s)", a.key(), b.key())))

			if qb, ok := mulLin(q, b); ok {
				rest := a.sub(qb)

				for _, l := range []Lin{q, rest, b.sub(rest).addConst(-1), a.sub(q)} {
					st.addCons(l)
				}

				if op == token.QUO {
					return Num{q}
				}

				return Num{rest}
			}
		}

		r := x.fresh(st, t, fmt.Sprintf("(%s %s %s)", a.key(), op, b.key()))
		rl := numOf(r)

		if st.proves(a) {
			if st.proves(b.addConst(-1)) {
				st.addCons(rl)
				st.addCons(a.sub(rl))

				if op == token.REM {
					st.addCons(b.sub(rl).addConst(-1))
				}
			}
		}

		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		if oka && okb {
			switch op {
			case token.AND:
				return Num{linC(ca & cb)}
			case token.OR:
				return Num{linC(ca | cb)}
			case token.XOR:
				return Num{linC(ca ^ cb)}
			case token.AND_NOT:
				return Num{linC(ca &^ cb)}
			case token.SHL:
				if cb >= 0 && cb < 63 {
					return Num{linC(ca << uint(cb))}
				}
			case token.SHR:
				if cb >= 0 && cb < 64 {
					return Num{linC(ca >> uint(cb))}
				}
			}
		}

		r := x.fresh(st, t, fmt.Sprintf("(%s %s %s)", a.key(), op, b.key()))
		if okb && cb >= 0 && op == token.AND {
			st.addCons(numOf(r))
			st.addCons(linC(cb).sub(numOf(r)))
		}

		if okb && cb >= 0 && cb < 62 && op == token.SHL {
			return Num{a.mulC(1 << uint(cb))}
		}

		if okb && cb > 0 && cb < 62 && op == token.SHR && st.proves(a) {
			return Num{x.divSym(st, a, 1<<uint(cb))}
		}

		return r
	}

	return nil
}

// divSym is a/c, rounded towards zero.
func (x *Interp) divSym(st *State, a Lin, c int64) Lin {
	if c == 1 {
		return a
	}

	s := symOf(fmt.Sprintf("(%s/%d)", a.key(), c))
	for _, t := range a.t {
		if syms[t.s].bindable {
			syms[s].bindable = false
		}
	}

	q := linS(s)
	lo := a.sub(q.mulC(c))                  // a - c*q >= 0
	hi := q.mulC(c).addConst(c - 1).sub(a)  // c*q + c-1 - a >= 0
	nlo := q.mulC(c).sub(a)                 // c*q - a >= 0
	nhi := a.addConst(c - 1).sub(q.mulC(c)) // a + c-1 - c*q >= 0
	pos, neg := bAnd(bGE(lo), bGE(hi)), bAnd(bGE(nlo), bGE(nhi))

	switch {
	case st.provesQuick(a):
		st.addCons(lo)
		st.addCons(hi)
		st.addCons(q)
	case st.provesQuick(a.neg()):
		st.addCons(nlo)
		st.addCons(nhi)
	default:
		g := bGE(a)
		st.facts = bAnd(st.facts, ite(g, bAnd(pos, bGE(q)), bAnd(neg, bGE(q.neg()))))
	}

	return q
}

func lp(l Lin) *Lin { return &l }

func (x *Interp) fltop(st *State, op token.Token, a, b Flt) Val {
	term := fmt.Sprintf("(%s%s%s)", valKey(a), op, valKey(b))
	if x.reals != nil && (op == token.ADD || op == token.SUB || op == token.MUL || op == token.QUO) {
		term = x.realTerm(op, a, b)
	}

	r := Flt{term: term}
	in01 := func(f Flt) bool {
		return f.lo != nil && f.hi != nil && st.provesQuick(*f.lo) && st.provesQuick(linC(1).sub(*f.hi))
	}
	nonneg := func(f Flt) bool { return f.lo != nil && st.provesQuick(*f.lo) }

	switch op {
	case token.ADD:
		if a.lo != nil && b.lo != nil {
			r.lo = lp(a.lo.add(*b.lo))
		}

		if a.hi != nil && b.hi != nil {
			r.hi = lp(a.hi.add(*b.hi))
		}
	case token.SUB:
		if a.lo != nil && b.hi != nil {
			r.lo = lp(a.lo.sub(*b.hi))
		}

		if a.hi != nil && b.lo != nil {
			r.hi = lp(a.hi.sub(*b.lo))
		}
	case token.MUL:
		// a constant factor
		for _, p := range [][2]Flt{{a, b}, {b, a}} {
			if p[0].lo == nil || p[0].hi == nil || !p[0].lo.eq(*p[0].hi) {
				continue
			}

			if c, ok := p[0].lo.isConst(); ok && c >= 0 {
				if p[1].lo != nil {
					r.lo = lp(p[1].lo.mulC(c))
				}

				if p[1].hi != nil {
					r.hi = lp(p[1].hi.mulC(c))
				}

				return r
			}
		}

		// a factor below one makes a whole number of at least one smaller
		whole := func(f Flt) bool {
			return f.lo != nil && f.hi != nil && f.lo.eq(*f.hi) && st.provesQuick(f.lo.addConst(-1))
		}

		switch {
		case in01(a) && nonneg(b) && b.hi != nil:
			r.lo, r.hi, r.open = lp(linC(0)), b.hi, a.open && whole(b)
		case in01(b) && nonneg(a) && a.hi != nil:
			r.lo, r.hi, r.open = lp(linC(0)), a.hi, b.open && whole(a)
		case nonneg(a) && nonneg(b):
			r.lo = lp(linC(0))
		}
	case token.QUO:
		if a.lo != nil && b.lo != nil && a.hi != nil && b.hi != nil {
			n, ok1 := a.lo.isConst()
			m, ok2 := a.hi.isConst()
			d, ok3 := b.lo.isConst()
			e, ok4 := b.hi.isConst()

			if ok1 && ok2 && ok3 && ok4 && n == m && d == e && d != 0 && n%d == 0 {
				r.lo, r.hi = lp(linC(n/d)), lp(linC(n/d))
				return r
			}
		}

		if nonneg(a) && nonneg(b) {
			r.lo = lp(linC(0))

			if a.hi != nil && b.lo != nil && st.provesQuick(b.lo.sub(*a.hi)) {
				r.hi = lp(linC(1))
				r.open = st.provesQuick(b.lo.sub(*a.hi).addConst(-1)) && st.provesQuick(b.lo.neg().addConst(1<<20))
			}

			// a divisor of at least one makes nothing larger
			if r.hi == nil && a.hi != nil && b.lo != nil && st.provesQuick(b.lo.addConst(-1)) {
				r.hi = a.hi
			}
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		// a < b, a <= b
		d := int64(0)
		if op == token.LSS {
			d = -1
		}

		if a.hi != nil && b.lo != nil && a.lo != nil && b.hi != nil && a.lo.eq(*a.hi) && b.lo.eq(*b.hi) {
			return Boo{bGE(b.lo.sub(*a.lo).addConst(d))}
		}

		if op == token.LSS && a.open && a.hi != nil && b.lo != nil && st.provesQuick(b.lo.sub(*a.hi)) {
			return Boo{bddTrue}
		}

		if op == token.LEQ && a.hi != nil && b.lo != nil && st.provesQuick(b.lo.sub(*a.hi)) {
			return Boo{bddTrue}
		}

		if op == token.LSS && a.lo != nil && b.hi != nil && st.provesQuick(a.lo.sub(*b.hi)) {
			return Boo{bddFalse}
		}

		return Boo{bddVar(atomOf(fmt.Sprintf("(%s%s%s)", a.term, op, b.term)))}
	}

	return r
}

// equal is the condition that two values are equal.
func (x *Interp) equal(st *State, a, b Val, t types.Type) *bdd {
	switch av := a.(type) {
	case Num:
		if bv, ok := b.(Num); ok {
			return bEQ(av.l.sub(bv.l))
		}

		if bv, ok := b.(BV); ok {
			if aa, ok := x.toBV(a, len(bv.bits)); ok {
				return bvEq(aa, bv)
			}
		}
	case BV:
		if bb, ok := x.toBV(b, len(av.bits)); ok {
			return bvEq(av, bb)
		}
	case Boo:
		if bv, ok := b.(Boo); ok {
			return bIff(av.b, bv.b)
		}
	case Str:
		bv, ok := b.(Str)
		if !ok {
			break
		}

		ca, ok1 := av.constant()
		cb, ok2 := bv.constant()

		switch {
		case ok1 && ok2:
			return bddConst(ca == cb)
		case av.key() == bv.key():
			return bddTrue
		case ok1 && ca == "":
			return bEQ(x.strLen(st, bv))
		case ok2 && cb == "":
			return bEQ(x.strLen(st, av))
		}

		// a string of bytes
		if ok2 {
			if src, ok := x.byteStr(av); ok {
				return x.bytesAre(st, src, cb)
			}
		}

		if ok1 {
			if src, ok := x.byteStr(bv); ok {
				return x.bytesAre(st, src, ca)
			}
		}

		// different constant prefixes or suffixes
		if strConflict(av, bv) {
			return bddFalse
		}

		ks := []string{av.key(), bv.key()}
		sort.Strings(ks)
		at := bddVar(atomOf("streq(" + ks[0] + "," + ks[1] + ")"))

		// a string that equals one constant equals no other
		if ok1 || ok2 {
			unk, c := av, cb
			if ok1 {
				unk, c = bv, ca
			}

			for _, f := range bddSupport(st.facts) {
				k := atoms[f].key
				if strings.HasPrefix(k, "streq(") && strings.Contains(k, unk.key()) && !strings.Contains(k, fmt.Sprintf("%q", c)) {
					if bAnd(st.facts, bNot(bddVar(f))) == bddFalse {
						return bddFalse
					}
				}
			}
		}

		return at
	case Ptr:
		bv, ok := b.(Ptr)
		if !ok {
			break
		}

		switch {
		case av.obj == 0 || av.nil_ == bddTrue:
			return bv.nil_
		case bv.obj == 0 || bv.nil_ == bddTrue:
			return av.nil_
		case av.obj == bv.obj && av.path == bv.path && av.idx == nil && bv.idx == nil:
			return bIff(av.nil_, bv.nil_)
		case av.obj != bv.obj && av.nil_ == bddFalse && bv.nil_ == bddFalse && x.lazyInfo[av.obj] == nil && x.lazyInfo[bv.obj] == nil:
			return bddFalse
		}
	case Slc:
		if bv, ok := b.(Slc); ok {
			if bv.nil_ == bddTrue {
				return av.nil_
			}

			if av.nil_ == bddTrue {
				return bv.nil_
			}
		}
	case Fun:
		if bv, ok := b.(Fun); ok {
			if bv.nil_ == bddTrue {
				return av.nil_
			}

			if av.nil_ == bddTrue {
				return bv.nil_
			}
		}
	case Ref:
		if bv, ok := b.(Ref); ok {
			if bv.nil_ == bddTrue {
				return av.nil_
			}

			if av.nil_ == bddTrue {
				return bv.nil_
			}

			if av.term == bv.term && av.obj == bv.obj && av.term != "" {
				return bddTrue
			}
		}
	case Ifc:
		bv, ok := b.(Ifc)
		if !ok {
			// comparison with a concrete value
			bv = Ifc{nil_: bddFalse, typ: t, val: b}
		}

		if bv.nil_ == bddTrue {
			return av.nil_
		}

		if av.nil_ == bddTrue {
			return bv.nil_
		}

		if av.typ != nil && bv.typ != nil {
			both := bAnd(bNot(av.nil_), bNot(bv.nil_))
			none := bAnd(av.nil_, bv.nil_)

			if !types.Identical(av.typ, bv.typ) {
				return none
			}

			return bOr(none, bAnd(both, x.equal(st, av.val, bv.val, av.typ)))
		}

		if av.typ == nil && bv.typ == nil && av.term == bv.term {
			return bddTrue
		}

		ks := []string{valKey(av), valKey(bv)}
		sort.Strings(ks)

		return bddVar(atomOf("ifaceeq(" + ks[0] + "," + ks[1] + ")"))
	case Tup:
		bv, ok := b.(Tup)
		if !ok || len(bv.fs) != len(av.fs) {
			break
		}

		r := bddTrue

		for i := range av.fs {
			ft := t

			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}

			r = bAnd(r, x.equal(st, av.fs[i], bv.fs[i], ft))
		}

		return r
	case Flt:
		if bv, ok := b.(Flt); ok {
			if x.ordFlt {
				return bEQ(fltLin(av).sub(fltLin(bv)))
			}

			if av.lo != nil && av.hi != nil && bv.lo != nil && bv.hi != nil && av.lo.eq(*av.hi) && bv.lo.eq(*bv.hi) {
				return bEQ(av.lo.sub(*bv.lo))
			}
		}
	}

	if valEq(a, b) {
		if _, f := a.(Flt); !f {
			return bddTrue
		}
	}

	ks := []string{valKey(a), valKey(b)}
	sort.Strings(ks)

	return bddVar(atomOf("eq(" + ks[0] + "," + ks[1] + ")"))
}

func strConflict(a, b Str) bool {
	pre := func(s Str) string {
		if len(s.parts) > 0 && s.parts[0].term == "" && s.parts[0].num == nil {
			return s.parts[0].c
		}

		return ""
	}
	suf := func(s Str) string {
		if n := len(s.parts); n > 0 && s.parts[n-1].term == "" && s.parts[n-1].num == nil {
			return s.parts[n-1].c
		}

		return ""
	}
	p, q := pre(a), pre(b)

	n := min(len(p), len(q))
	if p[:n] != q[:n] {
		return true
	}

	p, q = suf(a), suf(b)
	n = min(len(p), len(q))

	return p[len(p)-n:] != q[len(q)-n:]
}

// retype changes the type of a value with the same underlying type.
func (x *Interp) retype(st *State, v Val, from, to types.Type) Val {
	if isInt(to) {
		return x.convert(st, v, from, to)
	}

	return v
}

func (x *Interp) convert(st *State, v Val, from, to types.Type) Val {
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)

	switch {
	case tb != nil && tb.Info()&types.IsInteger != 0:
		if isBits(to) {
			if bv, ok := x.toBV(v, intWidth(to)); ok {
				return bv
			}

			if n, ok := v.(Num); ok {
				return x.fresh(st, to, "bits("+n.l.key()+")")
			}
		}

		switch v := v.(type) {
		case BV:
			if c, ok := v.constant(); ok {
				return Num{linC(int64(c))}
			}

			return Num{linS(bvSym(v))}
		case Num:
			if fb != nil && fb.Info()&types.IsInteger != 0 && !x.fits(st, v.l, to, from) {
				return x.fresh(st, to, fmt.Sprintf("%s(%s)", tb.Name(), v.l.key()))
			}

			return v
		case Flt:
			r := x.fresh(st, to, "int("+x.fltKey(v)+")")
			n := numOf(r)

			if v.lo != nil && v.hi != nil && v.lo.eq(*v.hi) {
				return Num{*v.lo}
			}

			if v.lo != nil {
				st.addCons(n.sub(*v.lo))
			}

			if v.hi != nil {
				st.addCons(v.hi.sub(n))

				if v.open && v.lo != nil && st.provesQuick(*v.lo) {
					st.addCons(v.hi.sub(n).addConst(-1))
				}
			}

			return r
		}
	case tb != nil && tb.Info()&types.IsFloat != 0:
		switch v := v.(type) {
		case Num:
			return Flt{term: "float(" + v.l.key() + ")", lo: lp(v.l), hi: lp(v.l)}
		case Flt:
			return v
		}
	case tb != nil && tb.Info()&types.IsString != 0:
		switch v := v.(type) {
		case Str:
			return v
		case Num:
			if c, ok := v.l.isConst(); ok {
				return strC(string(rune(c)))
			}

			return Str{[]strPart{{term: "rune(" + v.l.key() + ")"}}}
		case BV:
			if c, ok := v.constant(); ok {
				return strC(string(rune(c)))
			}

			return Str{[]strPart{{term: "rune(" + valKey(v) + ")"}}}
		case Slc:
			return x.sliceToStr(st, v, from)
		}
	}

	if sl, ok := tu.(*types.Slice); ok {
		if s, ok := v.(Str); ok {
			return x.strToSlice(st, s, sl)
		}
	}

	if _, ok := v.(Opq); !ok && fb == nil && tb == nil {
		return v
	}

	return x.fresh(st, to, shortType(to)+"("+valKey(v)+")")
}

func (x *Interp) sliceToStr(st *State, v Slc, from types.Type) Val {
	o := st.obj(v.obj)
	isByte := false

	if sl, ok := from.Underlying().(*types.Slice); ok {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			isByte = true
		}
	}

	off, ok1 := v.off.isConst()
	n, ok2 := v.len.isConst()

	if ok2 && n == 0 {
		return Str{}
	}

	if o != nil && o.conc && ok1 && ok2 {
		var out strings.Builder

		good := true

		for i := off; i < off+n; i++ {
			c, ok := constInt(o.elems[i])
			if !ok {
				good = false
				break
			}

			if isByte {
				out.WriteByte(byte(c))
			} else {
				out.WriteRune(rune(c))
			}
		}

		if good {
			return strC(out.String())
		}
	}

	if o != nil && !o.conc && strings.HasPrefix(o.term, "bytes:") && len(o.known) == 0 && v.off.eq(linC(0)) {
		if s, ok := x.strTerms[o.term]; ok && v.len.eq(x.strLen(st, s)) {
			return s
		}
	}

	term := freshName("string")
	if o != nil && !o.conc && len(o.known) == 0 {
		term = "string(" + o.term + "," + v.off.key() + "," + v.len.key() + ")"
	}

	r := Str{[]strPart{{term: term}}}

	if isByte && o != nil && o.kind == 'a' {
		x.byteStrs[term] = byteSrc{st.byteElem(v), v.len}
	}

	if isByte {
		d := x.strLen(st, r).sub(v.len)
		st.addCons(d)
		st.addCons(d.neg())
	}

	return r
}

// byteSrc is the origin of a string of bytes.
type byteSrc struct {
	at  func(st *State, i Lin) Val
	len Lin
}

func (x *Interp) byteStr(s Str) (byteSrc, bool) {
	if len(s.parts) != 1 || s.parts[0].term == "" {
		return byteSrc{}, false
	}

	b, ok := x.byteStrs[s.parts[0].term]

	return b, ok
}

// byteElem are the present elements of a slice.
func (st *State) byteElem(v Slc) func(*State, Lin) Val {
	o := st.obj(v.obj)

	return func(now *State, i Lin) Val {
		if k, ok := v.off.add(i).isConst(); ok && o.conc && k >= 0 && int(k) < len(o.elems) {
			return o.elems[k]
		}

		if e, ok := o.known[v.off.add(i).key()]; ok {
			return e
		}

		if o.conc || o.zero || len(o.known) > 0 {
			return now.x.fresh(now, o.typ, freshName("elem"))
		}

		return now.x.fresh(now, o.typ, o.term+"["+v.off.add(i).String()+"]")
	}
}

// bytesAre is the condition that the bytes are those of a constant.
func (x *Interp) bytesAre(st *State, b byteSrc, c string) *bdd {
	r := bEQ(b.len.addConst(-int64(len(c))))

	for i := 0; i < len(c) && st.decide(r) != 0; i++ {
		e := b.at(st, linC(int64(i)))
		if n, ok := e.(Num); ok {
			r = bAnd(r, bEQ(n.l.addConst(-int64(c[i]))))
		} else {
			r = bAnd(r, x.equal(st, e, x.intVal(int64(c[i]), types.Typ[types.Byte]), types.Typ[types.Byte]))
		}
	}

	return r
}

func constInt(v Val) (int64, bool) {
	switch v := v.(type) {
	case Num:
		return v.l.isConst()
	case BV:
		c, ok := v.constant()
		return int64(c), ok
	}

	return 0, false
}

func (x *Interp) intVal(c int64, t types.Type) Val {
	if isBits(t) {
		return bvConst(uint64(c), intWidth(t))
	}

	return Num{linC(c)}
}

func (x *Interp) strToSlice(st *State, s Str, sl *types.Slice) Val {
	isByte := sl.Elem().Underlying().(*types.Basic).Kind() == types.Uint8

	if c, ok := s.constant(); ok {
		var elems []Val

		if isByte {
			for i := 0; i < len(c); i++ {
				elems = append(elems, x.intVal(int64(c[i]), sl.Elem()))
			}
		} else {
			for _, r := range c {
				elems = append(elems, x.intVal(int64(r), sl.Elem()))
			}
		}

		return st.newSlice(sl.Elem(), elems)
	}

	if isByte {
		l := x.strLen(st, s)
		term := "bytes:" + s.key()
		x.strTerms[term] = s
		id := st.newObj(&Obj{typ: sl.Elem(), kind: 'a', term: term, size: l})

		return Slc{obj: id, len: l, cap: l, nil_: bddFalse}
	}

	id := st.newObj(&Obj{typ: sl.Elem(), kind: 'a', term: "runes:" + s.key()})
	n := symOf("runes(" + s.key() + ")")
	syms[n].lo = i64(0)
	st.addCons(x.strLen(st, s).sub(linS(n)))

	return Slc{obj: id, len: linS(n), cap: linS(n), nil_: bddFalse}
}

func (x *Interp) fits(st *State, l Lin, to, from types.Type) bool {
	tw, fw := intWidth(to), intWidth(from)
	tus, fus := isUnsigned(to), isUnsigned(from)

	if tw > fw && (fus || !tus) || tw == fw && tus == fus {
		return true
	}

	if c, ok := l.isConst(); ok {
		if tus {
			return c >= 0 && (tw >= 63 || c < 1<<uint(tw))
		}

		return tw == 64 || c >= -(1<<uint(tw-1)) && c < 1<<uint(tw-1)
	}

	// sizes of 32 and 64 bits are assumed not to overflow
	if tw >= 32 {
		return !tus || fus || st.proves(l)
	}

	if tus {
		return st.proves(l) && st.proves(linC(1<<uint(tw)-1).sub(l))
	}

	return st.proves(l.addConst(1<<uint(tw-1))) && st.proves(linC(1<<uint(tw-1)-1).sub(l))
}

var _ = utf8.RuneError

// maxInt stands for the largest int, of whatever size, where arithmetic wraps
// around.
func maxInt() Lin {
	s := symOf("maxInt")
	syms[s].lo = i64(1 << 31)

	return linS(s)
}

// wrapped is a sum as the machine computes it.
func (x *Interp) wrapped(st *State, r Lin, t types.Type) Lin {
	b, ok := t.Underlying().(*types.Basic)
	if !x.wrap || !ok || b.Kind() != types.Int && b.Kind() != types.Int64 {
		return r
	}

	if _, ok := r.isConst(); ok {
		return r
	}

	m := maxInt()
	over := m.sub(r)              // >= 0: not too large
	under := r.add(m).addConst(1) // >= 0: not too small
	turn := m.mulC(2).addConst(2) // the number of ints
	o, u := st.proves(over), st.proves(under)

	if o && u {
		return r
	}

	w := linS(freshSym("wrapped", false))
	st.addCons(m.sub(w))
	st.addCons(w.add(m).addConst(1))

	in := bAnd(bGE(over), bGE(under))
	fact := bImp(in, bEQ(w.sub(r)))

	if !o {
		fact = bAnd(fact, bImp(bNot(bGE(over)), bEQ(w.sub(r).add(turn))))
	}

	if !u {
		fact = bAnd(fact, bImp(bNot(bGE(under)), bEQ(w.sub(r).sub(turn))))
	}

	st.facts = bAnd(st.facts, fact)

	return w
}
