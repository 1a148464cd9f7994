package main

import (
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Maps as functions: what is known of some keys, the latest last, over either
// nothing or an unknown map.

// absentVal marks a key that a map does not have.
type absentVal struct{}

// mapBase is what an unknown map has for a key.
func (e *fexec) mapBase(n *Node, o *Obj, k Val, mt *types.Map, set func(*Node, Val, *bdd) *Node) []*Node {
	if o.conc {
		return one(set(n, e.x.zeroVal(mt.Elem()), bddFalse))
	}

	term := "map:" + o.term + "[" + valKey(k) + "]"
	ok := bddVar(atomOf("has " + term))
	absent := n.fork()

	var out []*Node

	if n.st.assume(ok) {
		out = append(out, set(n, e.x.fresh(n.st, mt.Elem(), term), bddTrue))
	}

	if absent.st.assume(bNot(ok)) {
		out = append(out, set(absent, e.x.zeroVal(mt.Elem()), bddFalse))
	}

	return out
}

func (e *fexec) mapGet(n *Node, o *Obj, k Val, mt *types.Map, set func(*Node, Val, *bdd) *Node) []*Node {
	var out []*Node

	cur := n

	for i := len(o.keys) - 1; i >= 0; i-- {
		c := e.x.keyEq(cur.st, o.keys[i], k, mt.Key())
		h := cur.fork()

		if h.st.assume(c) && !h.st.infeasible() {
			if _, gone := o.elems[i].(absentVal); gone {
				out = append(out, set(h, e.x.zeroVal(mt.Elem()), bddFalse))
			} else {
				out = append(out, set(h, o.elems[i], bddTrue))
			}
		}

		if !cur.st.assume(bNot(c)) || cur.st.infeasible() {
			return out
		}
	}

	return append(out, e.mapBase(cur, o, k, mt, set)...)
}

// mapPut sets what a map has for a key in each of the ways the key may be
// related to the ones known.
func (x *Interp) mapPut(n *Node, m, k, v Val) []*Node {
	r, _ := m.(Ref)
	if r.obj == 0 {
		return one(n)
	}

	o := n.st.obj(r.obj)
	if o == nil {
		return one(n)
	}

	if len(o.keys) > 8 {
		// a large table: nothing is known of it
		n.st.heap[r.obj] = &Obj{typ: o.typ, kind: 'm', term: freshName("map"), name: o.name}
		return one(n)
	}

	_, gone := v.(absentVal)
	kt := o.typ.Underlying().(*types.Map).Key()
	put := func(n *Node, i int) *Node {
		c := *o
		c.keys = append([]Val(nil), o.keys...)
		c.elems = append([]Val(nil), o.elems...)

		switch {
		case i < 0 && gone && o.conc:
		case i < 0:
			c.keys = append(c.keys, k)
			c.elems = append(c.elems, v)
		case gone && o.conc:
			c.keys = append(c.keys[:i:i], c.keys[i+1:]...)
			c.elems = append(c.elems[:i:i], c.elems[i+1:]...)
		default:
			c.elems[i] = v
		}

		n.st.heap[r.obj] = &c

		return n
	}

	var out []*Node

	for i := range o.keys {
		c := x.keyEq(n.st, o.keys[i], k, kt)
		h := n.fork()

		if h.st.assume(c) && !h.st.infeasible() {
			out = append(out, put(h, i))
		}

		if !n.st.assume(bNot(c)) || n.st.infeasible() {
			return out
		}
	}

	return append(out, put(n, -1))
}

func (x *Interp) mapSet(n *Node, m, k, v Val) []*Node { return x.mapPut(n, m, k, v) }

func (x *Interp) mapDelete(c *CallCtx) []Outcome {
	var out []Outcome

	for _, n := range x.mapPut(&Node{st: c.st, env: map[ssa.Value]Val{}}, c.args[0], c.args[1], absentVal{}) {
		out = append(out, Outcome{st: n.st})
	}

	return out
}

// fltLin orders floats: constants by their value, the others freely.
func fltLin(f Flt) Lin {
	s := strings.TrimPrefix(f.term, "c")
	switch {
	case strings.Contains(f.term, "math.Inf(n1)"):
		return linC(1 << 61)
	case strings.Contains(f.term, "math.Inf(n-1)"):
		return linC(-(1 << 61))
	}

	if r, ok := new(big.Rat).SetString(s); ok {
		v := constant.ToInt(constant.Make(new(big.Rat).Mul(r, new(big.Rat).SetInt64(1e10))))
		if i, ok := constant.Int64Val(v); ok && v.Kind() == constant.Int {
			return linC(i)
		}
	}

	return linS(symOf("flt:" + f.term))
}

// mapElem is what a map has for a key it was iterated with.
func (st *State) mapElem(r Ref, k Val) Val {
	if o := st.obj(r.obj); o != nil {
		for i := range o.keys {
			if valEq(o.keys[i], k) {
				return o.elems[i]
			}
		}
	}

	return nil
}

// skipGone is the next key of an iteration that the map still has.
func (x *Interp) skipGone(st *State, snap *Obj, r Ref, i int64) int64 {
	for snap != nil && int(i) < len(snap.keys) && st.mapElem(r, snap.keys[i]) == nil {
		i++
	}

	return i
}
