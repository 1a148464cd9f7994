package main

import (
	"go/token"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Floats as reals: sums of products of unknowns with rational factors, so that
// two ways to compute the same number have the same normal form. Rounding of
// the arithmetic is not followed.

// real is a sum: the factor of each product. A product is a list of unknowns
// with exponents, sorted.
type real map[string]*big.Rat

func realC(r *big.Rat) real {
	if r.Sign() == 0 {
		return real{}
	}

	return real{"": r}
}

func realI(n int64) real { return realC(big.NewRat(n, 1)) }

func realAtom(name string) real {
	return real{name + "\x01" + "1": big.NewRat(1, 1)}
}

func realLin(l Lin) real {
	r := realI(l.c)
	for _, t := range l.t {
		r = r.add(realAtom(syms[t.s].name).mul(realI(t.k)))
	}

	return r
}

func (a real) add(b real) real {
	r := real{}
	for k, v := range a {
		r[k] = v
	}

	for k, v := range b {
		s := v
		if o := r[k]; o != nil {
			s = new(big.Rat).Add(o, v)
		}

		if s.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = s
		}
	}

	return r
}

func (a real) neg() real       { return a.mul(realI(-1)) }
func (a real) sub(b real) real { return a.add(b.neg()) }

func (a real) mul(b real) real {
	r := real{}

	for k, v := range a {
		for l, w := range b {
			r = r.add(real{mulMonomials(k, l, 1): new(big.Rat).Mul(v, w)})
		}
	}

	return r
}

// div divides by a product; by a sum, it divides by an unknown that stands for
// the sum.
func (a real) div(b real) real {
	if len(b) != 1 {
		b = realAtom("(" + b.key() + ")")
	}

	for k, v := range b {
		return a.mul(real{mulMonomials("", k, -1): new(big.Rat).Inv(v)})
	}

	return nil
}

func mulMonomials(a, b string, sign int) string {
	exp := map[string]int{}
	read := func(s string, sign int) {
		for _, f := range strings.Split(s, "\x02") {
			if name, n, ok := strings.Cut(f, "\x01"); ok {
				k, _ := strconv.Atoi(n)
				exp[name] += sign * k
			}
		}
	}

	read(a, 1)
	read(b, sign)

	var fs []string

	for name, n := range exp {
		if n != 0 {
			fs = append(fs, name+"\x01"+strconv.Itoa(n))
		}
	}

	sort.Strings(fs)

	return strings.Join(fs, "\x02")
}

// subst replaces unknowns.
func (a real) subst(m map[string]real) real {
	r := real{}

	for k, v := range a {
		p := realC(v)

		for _, f := range strings.Split(k, "\x02") {
			name, n, ok := strings.Cut(f, "\x01")
			if !ok {
				continue
			}

			e, _ := strconv.Atoi(n)

			by := m[name]
			if by == nil || e < 0 && len(by) == 0 {
				p = p.mul(real{f: big.NewRat(1, 1)})
				continue
			}

			for ; e > 0; e-- {
				p = p.mul(by)
			}

			for ; e < 0; e++ {
				p = p.div(by)
			}
		}

		r = r.add(p)
	}

	return r
}

// key names the number.
func (a real) key() string {
	if len(a) == 0 {
		return "0"
	}

	var ks []string

	for k, v := range a {
		s := v.RatString()
		for _, f := range strings.Split(k, "\x02") {
			if name, n, ok := strings.Cut(f, "\x01"); ok {
				s += "*" + name
				if n != "1" {
					s += "^" + n
				}
			}
		}

		ks = append(ks, strings.TrimPrefix(s, "1*"))
	}

	sort.Strings(ks)

	return strings.Join(ks, " + ")
}

// isConst is the number's value.
func (a real) isConst() (*big.Rat, bool) {
	if len(a) == 0 {
		return new(big.Rat), true
	}

	v, ok := a[""]

	return v, ok && len(a) == 1
}

// realOf is what is known of a float.
func (x *Interp) realOf(f Flt) real {
	if r, ok := x.reals[f.term]; ok {
		return r
	}

	if f.lo != nil && f.hi != nil && f.lo.eq(*f.hi) {
		return realLin(*f.lo)
	}

	if r, ok := new(big.Rat).SetString(strings.TrimPrefix(f.term, "c")); ok {
		// the number meant by a constant that is not exact
		n, _ := r.Float64()
		if d, ok := new(big.Rat).SetString(strconv.FormatFloat(n, 'g', -1, 64)); ok {
			r = d
		}

		return realC(r)
	}

	return realAtom(f.term)
}

// realTerm names the result of an operation.
func (x *Interp) realTerm(op token.Token, a, b Flt) string {
	p, q := x.realOf(a), x.realOf(b)

	var r real

	switch op {
	case token.ADD:
		r = p.add(q)
	case token.SUB:
		r = p.sub(q)
	case token.MUL:
		r = p.mul(q)
	default:
		r = p.div(q)
	}

	x.reals[r.key()] = r

	return r.key()
}

// fltKey names a float.
func (x *Interp) fltKey(f Flt) string {
	if x.reals != nil {
		return x.realOf(f).key()
	}

	return valKey(f)
}
