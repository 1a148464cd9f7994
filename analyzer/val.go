package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Values are immutable.
type Val interface{}

type (
	// Num is an integer.
	Num struct{ l Lin }
	// Boo is a boolean function of the atoms.
	Boo struct{ b *bdd }
	// BV is an unsigned integer by its bits, the lowest first.
	BV struct{ bits []*bdd }
	// Flt is a floating point number in [lo, hi], where known, or below hi.
	Flt struct {
		term   string
		lo, hi *Lin
		open   bool
	}
	// Str is a concatenation of constants and unknown strings.
	Str struct{ parts []strPart }
	// Tup is a struct, a tuple or a small array.
	Tup struct{ fs []Val }
	// Ptr points into an object; obj is 0 for the nil constant.
	Ptr struct {
		obj  ObjID
		path string // "/2/0": fields and constant indices; "/[k]" symbolic element
		idx  *Lin   // symbolic element index, for the last step only
		nil_ *bdd
	}
	// Slc is a slice of an array object.
	Slc struct {
		obj      ObjID
		off      Lin
		len, cap Lin
		nil_     *bdd
	}
	// Ifc is an interface value.
	Ifc struct {
		nil_ *bdd
		typ  types.Type // dynamic type, when known
		val  Val
		term string // identity of an unknown dynamic value
		errs string // for errors: the causes it is known to wrap, ",a,b,"
	}
	// Fun is a function value.
	Fun struct {
		nil_  *bdd
		fn    *ssa.Function
		binds []Val
		term  string
	}
	// Ref is a map or a channel.
	Ref struct {
		nil_ *bdd
		obj  ObjID
		term string
	}
	// Opq is a value nothing is known of but its identity.
	Opq struct{ term string }
)

type strPart struct {
	c    string // constant, if term is empty
	term string // unknown string
	num  *Lin   // decimal form of a number
}

type ObjID int

// Obj is the memory of one variable, array or map.
type Obj struct {
	typ  types.Type // of the variable or of the elements of an array
	kind byte       // 'v' variable, 'a' array, 'm' map
	val  Val        // of a variable
	// arrays
	elems []Val // concrete elements, if not nil
	conc  bool
	term  string         // otherwise the identity of its contents
	zero  bool           // otherwise its elements are zero, apart from known
	known map[string]Val // and these elements, by index
	kidx  map[string]Lin
	size  Lin
	segs  []seg           // where its elements are from, one after another, if known
	pos   map[string]bool // numbers of every element that are not negative, if followed
	// maps
	keys []Val
	// flow
	name   string // origin, for messages
	sealed bool   // memory that is not to be written
	from   ObjID  // the memory that it is a part of, if there was room to append
}

// seg is a part of an array: len elements of a base, starting at off.
type seg struct {
	base     string
	off, len Lin
}

var nextObj ObjID = 1

func strC(s string) Str {
	if s == "" {
		return Str{}
	}

	return Str{[]strPart{{c: s}}}
}

func (s Str) constant() (string, bool) {
	var b strings.Builder
	for _, p := range s.parts {
		if p.term != "" || p.num != nil {
			return "", false
		}

		b.WriteString(p.c)
	}

	return b.String(), true
}

func (s Str) cat(o Str) Str {
	parts := append([]strPart(nil), s.parts...)
	for _, p := range o.parts {
		if n := len(parts); n > 0 && p.term == "" && p.num == nil && parts[n-1].term == "" && parts[n-1].num == nil {
			parts[n-1].c += p.c
			continue
		}

		parts = append(parts, p)
	}

	return Str{parts}
}

func (s Str) key() string {
	var b strings.Builder
	for _, p := range s.parts {
		switch {
		case p.num != nil:
			b.WriteString("<num " + p.num.key() + ">")
		case p.term != "":
			b.WriteString("<" + p.term + ">")
		default:
			b.WriteString(strconv.Quote(p.c))
		}
	}

	return b.String()
}

func (s Str) String() string {
	var b strings.Builder
	for _, p := range s.parts {
		switch {
		case p.num != nil:
			b.WriteString("<" + p.num.String() + ">")
		case p.term != "":
			b.WriteString("<" + p.term + ">")
		default:
			b.WriteString(p.c)
		}
	}

	return fmt.Sprintf("%q", b.String())
}

func nilAtom(term string) *bdd { return bddVar(atomOf("nil:" + term)) }

// valKey identifies a value: equal keys mean equal values.
func valKey(v Val) string {
	switch v := v.(type) {
	case absentVal:
		return "gone"
	case nil:
		return "_"
	case Num:
		return "n" + v.l.key()
	case Boo:
		return "b" + strconv.Itoa(v.b.id)
	case BV:
		var b strings.Builder

		b.WriteString("v")

		for _, x := range v.bits {
			b.WriteString(strconv.Itoa(x.id))
			b.WriteByte('.')
		}

		return b.String()
	case Flt:
		s := "f" + v.term
		if v.lo != nil {
			s += ">" + v.lo.key()
		}

		if v.hi != nil {
			s += "<" + v.hi.key()
		}

		return s
	case Str:
		return "s" + v.key()
	case Tup:
		var b strings.Builder

		b.WriteString("(")

		for _, f := range v.fs {
			b.WriteString(valKey(f))
			b.WriteByte(';')
		}

		b.WriteString(")")

		return b.String()
	case Ptr:
		s := "p" + strconv.Itoa(int(v.obj)) + v.path + "?" + strconv.Itoa(v.nil_.id)
		if v.idx != nil {
			s += "@" + v.idx.key()
		}

		return s
	case Slc:
		return "l" + strconv.Itoa(int(v.obj)) + "@" + v.off.key() + ":" + v.len.key() + ":" + v.cap.key() + "?" + strconv.Itoa(v.nil_.id)
	case Ifc:
		s := "i" + strconv.Itoa(v.nil_.id) + "T"
		if v.typ != nil {
			s += v.typ.String() + valKey(v.val)
		} else {
			s += v.term
		}

		return s + "!" + v.errs
	case Fun:
		s := "F" + strconv.Itoa(v.nil_.id)
		if v.fn != nil {
			s += fmt.Sprintf("%p", v.fn)
		} else {
			s += v.term
		}

		for _, b := range v.binds {
			s += "^" + valKey(b)
		}

		return s
	case Ref:
		return "r" + strconv.Itoa(v.nil_.id) + "." + strconv.Itoa(int(v.obj)) + v.term
	case Opq:
		return "o" + v.term
	}

	panic(fmt.Sprintf("valKey: %T", v))
}

func valEq(a, b Val) bool { return valKey(a) == valKey(b) }

func showVal(v Val) string {
	switch v := v.(type) {
	case nil:
		return "_"
	case Num:
		return v.l.String()
	case Boo:
		return v.b.String()
	case BV:
		if c, ok := v.constant(); ok {
			return fmt.Sprintf("0x%x", c)
		}

		var p []string
		for i, b := range v.bits {
			if b != bddFalse {
				p = append(p, fmt.Sprintf("%d:{%s}", i, b))
			}
		}

		return "bits[" + strings.Join(p, " ") + "]"
	case Str:
		return v.String()
	case Tup:
		var p []string
		for _, f := range v.fs {
			p = append(p, showVal(f))
		}

		return "{" + strings.Join(p, ", ") + "}"
	case Ptr:
		if v.obj == 0 {
			return "nil"
		}

		s := fmt.Sprintf("&%d%s", v.obj, v.path)
		if v.idx != nil {
			s += "[" + v.idx.String() + "]"
		}

		return s
	case Slc:
		return fmt.Sprintf("slice(%d)[%s:+%s]", v.obj, v.off, v.len)
	case Ifc:
		if v.nil_ == bddTrue {
			return "nil"
		}

		if v.typ != nil {
			return v.typ.String() + "(" + showVal(v.val) + ")"
		}

		return "iface(" + v.term + ")"
	case Fun:
		if v.fn != nil {
			return fname(v.fn)
		}

		return "func(" + v.term + ")"
	case Flt:
		s := "float(" + v.term
		if v.lo != nil {
			s += " >=" + v.lo.String()
		}

		if v.hi != nil {
			s += " <=" + v.hi.String()
		}

		return s + ")"
	}

	return valKey(v)
}

func (v BV) constant() (uint64, bool) {
	var r uint64

	for i, b := range v.bits {
		switch b {
		case bddTrue:
			r |= 1 << uint(i)
		case bddFalse:
		default:
			return 0, false
		}
	}

	return r, true
}

func bvConst(c uint64, w int) BV {
	r := BV{make([]*bdd, w)}
	for i := range r.bits {
		r.bits[i] = bddConst(c>>uint(i)&1 == 1)
	}

	return r
}

// bvTypes are the defined types whose values are sets of bits.
var bvTypes = map[string]bool{}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}

	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}

	return 64
}

// isBits reports that values of the type are kept by their bits.
func isBits(t types.Type) bool {
	return bvTypes[typeName(t)] && !isPtr(t)
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// fresh is an unknown value of a type; the same term is the same value.
func (x *Interp) fresh(st *State, t types.Type, term string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Boo{bddVar(atomOf(term))}
		case isBits(t):
			w := intWidth(t)
			r := BV{make([]*bdd, w)}

			for i := range r.bits {
				r.bits[i] = bddFalse
				if x.bitsUsed == 0 || i < x.bitsUsed {
					r.bits[i] = bddVar(atomOf(fmt.Sprintf("%s.bit%d", term, i)))
				}
			}

			return r
		case u.Info()&types.IsInteger != 0:
			s := symOf(term)
			if u.Info()&types.IsUnsigned != 0 && syms[s].lo == nil {
				syms[s].lo = i64(0)
				if w := intWidth(t); w < 63 {
					syms[s].hi = i64(1<<uint(w) - 1)
				}
			}

			return Num{linS(s)}
		case u.Info()&types.IsFloat != 0:
			return Flt{term: term}
		case u.Info()&types.IsString != 0:
			return Str{[]strPart{{term: term}}}
		case u.Kind() == types.UntypedNil:
			return Ptr{nil_: bddTrue}
		}

		return Opq{term}
	case *types.Struct:
		r := Tup{make([]Val, u.NumFields())}
		for i := range r.fs {
			r.fs[i] = x.fresh(st, u.Field(i).Type(), term+"."+u.Field(i).Name())
		}

		return r
	case *types.Array:
		if u.Len() > 64 {
			return Opq{term}
		}

		r := Tup{make([]Val, u.Len())}
		for i := range r.fs {
			r.fs[i] = x.fresh(st, u.Elem(), fmt.Sprintf("%s[%d]", term, i))
		}

		return r
	case *types.Tuple:
		r := Tup{make([]Val, u.Len())}
		for i := range r.fs {
			r.fs[i] = x.fresh(st, u.At(i).Type(), fmt.Sprintf("%s.%d", term, i))
		}

		return r
	case *types.Pointer:
		return Ptr{obj: x.lazyObj(term, 'v', u.Elem()), nil_: nilAtom(term)}
	case *types.Slice:
		o := x.lazyObj(term, 'a', u.Elem())
		l := symOf("len(" + term + ")")
		syms[l].lo = i64(0)
		c := symOf("cap(" + term + ")")
		syms[c].lo = i64(0)
		st.addCons(linS(c).sub(linS(l)))
		// a nil slice is empty
		st.facts = bAnd(st.facts, bImp(nilAtom(term), bNot(bGE(linS(l).addConst(-1)))))

		return Slc{obj: o, off: linC(0), len: linS(l), cap: linS(c), nil_: nilAtom(term)}
	case *types.Interface:
		return Ifc{nil_: nilAtom(term), term: term}
	case *types.Signature:
		return Fun{nil_: nilAtom(term), term: term}
	case *types.Map:
		return Ref{nil_: nilAtom(term), obj: x.lazyObj(term, 'm', t), term: term}
	case *types.Chan:
		return Ref{nil_: nilAtom(term), term: term}
	}

	return Opq{term}
}

// lazyObj is the object an unknown pointer or slice refers to: its contents
// are made when they are first read.
func (x *Interp) lazyObj(term string, kind byte, t types.Type) ObjID {
	k := string(kind) + term
	if id, ok := x.lazy[k]; ok {
		return id
	}

	id := nextObj
	nextObj++
	x.lazy[k] = id
	x.lazyInfo[id] = &Obj{typ: t, kind: kind, term: term, name: term}

	return id
}

// zeroVal is the zero value of a type.
func (x *Interp) zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Boo{bddFalse}
		case isBits(t):
			return bvConst(0, intWidth(t))
		case u.Info()&types.IsInteger != 0:
			return Num{linC(0)}
		case u.Info()&types.IsFloat != 0:
			z := linC(0)
			return Flt{term: "0", lo: &z, hi: &z}
		case u.Info()&types.IsString != 0:
			return Str{}
		}

		return Ptr{nil_: bddTrue}
	case *types.Struct:
		r := Tup{make([]Val, u.NumFields())}
		for i := range r.fs {
			r.fs[i] = x.zeroVal(u.Field(i).Type())
		}

		return r
	case *types.Array:
		if u.Len() > 64 {
			return Opq{freshName("array")}
		}

		r := Tup{make([]Val, u.Len())}
		for i := range r.fs {
			r.fs[i] = x.zeroVal(u.Elem())
		}

		return r
	case *types.Tuple:
		r := Tup{make([]Val, u.Len())}
		for i := range r.fs {
			r.fs[i] = x.zeroVal(u.At(i).Type())
		}

		return r
	case *types.Pointer:
		return Ptr{nil_: bddTrue}
	case *types.Slice:
		return Slc{nil_: bddTrue}
	case *types.Interface:
		return Ifc{nil_: bddTrue}
	case *types.Signature:
		return Fun{nil_: bddTrue}
	case *types.Map, *types.Chan:
		return Ref{nil_: bddTrue}
	}

	return Opq{"zero:" + t.String()}
}

// constVal is the value of a constant.
func (x *Interp) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zeroVal(t)
	}

	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return x.zeroVal(t)
	}

	return x.goConst(c.Value, b, t)
}

func (x *Interp) goConst(v constant.Value, b *types.Basic, t types.Type) Val {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Boo{bddConst(constant.BoolVal(v))}
	case b.Info()&types.IsString != 0:
		return strC(constant.StringVal(v))
	case isBits(t):
		n, _ := constant.Uint64Val(constant.ToInt(v))
		return bvConst(n, intWidth(t))
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(v)
		if n, ok := constant.Int64Val(iv); ok {
			if x.wrap && n == math.MaxInt64 {
				return Num{maxInt()}
			}

			if x.wrap && n == math.MinInt64 {
				return Num{maxInt().mulC(-1).addConst(-1)}
			}

			return Num{linC(n)}
		}

		s := symOf("const:" + iv.String())
		if constant.Sign(iv) > 0 {
			syms[s].lo = i64(1 << 62)
		}

		return Num{linS(s)}
	case b.Info()&types.IsFloat != 0:
		f := Flt{term: "c" + v.ExactString()}
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			if n, ok := constant.Int64Val(iv); ok {
				l := linC(n)
				f.lo, f.hi = &l, &l
			}
		} else if fl, ok := constant.Float64Val(v); ok && fl > -1e9 && fl < 1e9 {
			lo, hi := linC(int64(fl)), linC(int64(fl)+1)
			if fl < 0 {
				lo, hi = linC(int64(fl)-1), linC(int64(fl))
			}

			f.lo, f.hi = &lo, &hi
		}

		return f
	}

	return Opq{"const:" + v.ExactString()}
}
