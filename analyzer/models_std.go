package main

import (
	"bytes"
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"slices"
	"strings"
	"unicode/utf8"
)

// bytesOf are the bytes of a value that is known completely.
func (st *State) bytesOf(v Val) ([]byte, bool) {
	if s, ok := v.(Str); ok {
		k, ok := s.constant()
		return []byte(k), ok
	}

	es, ok := st.elemsOf(v)
	if !ok {
		return nil, false
	}

	out := make([]byte, 0, len(es))

	for _, e := range es {
		n, ok := constInt(e)
		if !ok || n < 0 || n > 255 {
			return nil, false
		}

		out = append(out, byte(n))
	}

	return out, true
}

// byteSlice is a new slice of the given bytes.
func (x *Interp) byteSlice(st *State, s []byte) Val {
	var vs []Val
	for _, b := range s {
		vs = append(vs, x.intVal(int64(b), types.Typ[types.Byte]))
	}

	return st.newSlice(types.Typ[types.Byte], vs)
}

// constBytes evaluates functions of the standard library on known bytes.
func (x *Interp) constBytes(c *CallCtx) (bool, []Outcome) {
	if !strings.HasPrefix(c.name, "bytes.") && !strings.HasPrefix(c.name, "unicode/utf8.") && !strings.HasPrefix(c.name, "regexp.") || len(c.args) == 0 {
		return false, nil
	}

	st := c.st
	b := func(v bool) Val { return Boo{bddConst(v)} }
	i := func(v int) Val { return Num{linC(int64(v))} }

	if c.name == "regexp.MustCompile" {
		k, ok := st.bytesOf(c.args[0])
		if !ok {
			return false, nil
		}

		t := c.sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		id := st.newVar(t, x.fresh(st, t, freshName("regexp")), "regexp:"+string(k))

		return c.ret(Ptr{obj: id, nil_: bddFalse})
	}

	if strings.HasPrefix(c.name, "regexp.Regexp.") && len(c.args) == 2 {
		re, ok := c.args[0].(Ptr)
		if !ok || re.obj == 0 {
			return false, nil
		}

		o := st.obj(re.obj)
		if o == nil || !strings.HasPrefix(o.name, "regexp:") {
			return false, nil
		}

		e, err := regexp.Compile(strings.TrimPrefix(o.name, "regexp:"))
		s, ok := st.bytesOf(c.args[1])

		if err != nil || !ok {
			return false, nil
		}

		switch strings.TrimPrefix(c.name, "regexp.Regexp.") {
		case "Match", "MatchString":
			return c.ret(b(e.Match(s)))
		case "FindIndex", "FindStringIndex", "FindSubmatchIndex", "FindStringSubmatchIndex":
			loc := e.FindIndex(s)
			if strings.Contains(c.name, "Submatch") {
				loc = e.FindSubmatchIndex(s)
			}

			return c.ret(x.ints(st, loc))
		case "Find":
			if loc := e.FindIndex(s); loc != nil {
				sl := c.args[1].(Slc)
				sl.off = sl.off.addConst(int64(loc[0]))
				sl.len = linC(int64(loc[1] - loc[0]))
				sl.cap = sl.cap.addConst(-int64(loc[0]))

				return c.ret(sl)
			}

			return c.ret(x.zeroVal(c.sig.Results().At(0).Type()))
		case "FindSubmatch":
			loc := e.FindSubmatchIndex(s)
			if loc == nil {
				return c.ret(x.zeroVal(c.sig.Results().At(0).Type()))
			}

			src := c.args[1].(Slc)

			var vs []Val

			for k := 0; k+1 < len(loc); k += 2 {
				if loc[k] < 0 {
					vs = append(vs, x.zeroVal(types.NewSlice(types.Typ[types.Byte])))
					continue
				}

				sl := src
				sl.off = src.off.addConst(int64(loc[k]))
				sl.len = linC(int64(loc[k+1] - loc[k]))
				sl.cap = src.cap.addConst(-int64(loc[k]))
				vs = append(vs, sl)
			}

			return c.ret(st.newSlice(types.NewSlice(types.Typ[types.Byte]), vs))
		case "FindString":
			return c.ret(strC(e.FindString(string(s))))
		case "FindStringSubmatch":
			m := e.FindStringSubmatch(string(s))
			if m == nil {
				return c.ret(x.zeroVal(c.sig.Results().At(0).Type()))
			}

			var vs []Val
			for _, k := range m {
				vs = append(vs, strC(k))
			}

			return c.ret(st.newSlice(types.Typ[types.String], vs))
		}

		return false, nil
	}

	var ss [][]byte

	for k, a := range c.args {
		// a rune or a byte
		if n, ok := constInt(a); ok && k == 1 {
			if strings.HasSuffix(c.name, "Byte") {
				ss = append(ss, []byte{byte(n)})
			} else {
				ss = append(ss, []byte(string(rune(n))))
			}

			continue
		}

		s, ok := st.bytesOf(a)
		if !ok {
			return false, nil
		}

		ss = append(ss, s)
	}

	if len(ss) == 1 {
		s := ss[0]

		switch c.name {
		case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
			r, w := utf8.DecodeRune(s)
			return c.ret(x.intVal(int64(r), types.Typ[types.Rune]), i(w))
		case "unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString":
			r, w := utf8.DecodeLastRune(s)
			return c.ret(x.intVal(int64(r), types.Typ[types.Rune]), i(w))
		case "unicode/utf8.FullRune", "unicode/utf8.FullRuneInString":
			return c.ret(b(utf8.FullRune(s)))
		case "unicode/utf8.Valid", "unicode/utf8.ValidString":
			return c.ret(b(utf8.Valid(s)))
		case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
			return c.ret(i(utf8.RuneCount(s)))
		case "bytes.Clone":
			return c.ret(x.byteSlice(st, s))
		}
	}

	if len(ss) == 2 {
		p, q := ss[0], ss[1]

		switch c.name {
		case "bytes.HasPrefix":
			return c.ret(b(bytes.HasPrefix(p, q)))
		case "bytes.HasSuffix":
			return c.ret(b(bytes.HasSuffix(p, q)))
		case "bytes.Equal":
			return c.ret(b(bytes.Equal(p, q)))
		case "bytes.Contains":
			return c.ret(b(bytes.Contains(p, q)))
		case "bytes.Index", "bytes.IndexByte", "bytes.IndexRune":
			return c.ret(i(bytes.Index(p, q)))
		case "bytes.LastIndex", "bytes.LastIndexByte":
			return c.ret(i(bytes.LastIndex(p, q)))
		case "bytes.IndexAny":
			return c.ret(i(bytes.IndexAny(p, string(q))))
		case "bytes.Compare":
			return c.ret(i(bytes.Compare(p, q)))
		case "bytes.Count":
			return c.ret(i(bytes.Count(p, q)))
		case "bytes.Split", "bytes.Cut":
			sl, ok := c.args[0].(Slc)
			if !ok {
				return false, nil
			}

			part := func(lo, hi int) Val {
				r := sl
				r.off, r.len, r.cap = sl.off.addConst(int64(lo)), linC(int64(hi-lo)), sl.cap.addConst(-int64(lo))

				return r
			}

			if c.name == "bytes.Cut" {
				if k := bytes.Index(p, q); k >= 0 {
					return c.ret(part(0, k), part(k+len(q), len(p)), b(true))
				}

				return c.ret(sl, x.zeroVal(c.sig.Results().At(1).Type()), b(false))
			}

			if len(q) == 0 {
				return false, nil
			}

			var vs []Val

			at := 0

			for {
				k := bytes.Index(p[at:], q)
				if k < 0 {
					vs = append(vs, part(at, len(p)))
					break
				}

				vs = append(vs, part(at, at+k))
				at += k + len(q)
			}

			return c.ret(st.newSlice(types.NewSlice(types.Typ[types.Byte]), vs))
		case "bytes.CutPrefix", "bytes.TrimPrefix":
			sl, ok := c.args[0].(Slc)
			if !ok {
				return false, nil
			}

			found := bytes.HasPrefix(p, q)
			if n := int64(len(q)); found {
				sl.off, sl.len, sl.cap = sl.off.addConst(n), sl.len.addConst(-n), sl.cap.addConst(-n)
			}

			if c.name == "bytes.TrimPrefix" {
				return c.ret(sl)
			}

			return c.ret(sl, b(found))
		}
	}

	return false, nil
}

// symBytes models functions of the standard library on bytes that are not known.
func (x *Interp) symBytes(c *CallCtx) (bool, []Outcome) {
	if !strings.HasPrefix(c.name, "bytes.") && !strings.HasPrefix(c.name, "unicode/utf8.") && !strings.HasPrefix(c.name, "regexp.") || len(c.args) == 0 {
		return false, nil
	}

	st := c.st
	in := c.args[0]
	isRe := strings.HasPrefix(c.name, "regexp.Regexp.") && len(c.args) == 2

	if isRe {
		in = c.args[1]
	}

	var (
		src byteSrc
		sl  Slc
		key string
	)

	switch v := in.(type) {
	case Slc:
		o := st.obj(v.obj)
		if o == nil || o.kind != 'a' {
			return false, nil
		}

		sl = v
		src = byteSrc{st.byteElem(v), v.len}

		// equal keys mean equal bytes
		if s, ok := x.sliceToStr(st, v, types.NewSlice(types.Typ[types.Byte])).(Str); ok {
			key = s.key()
		} else {
			return false, nil
		}
	case Str:
		s, ok := x.byteStr(v)
		if !ok {
			return false, nil
		}

		src, key = s, v.key()
	default:
		return false, nil
	}

	sub := func(lo, hi Lin) Val {
		if sl.obj == 0 {
			term := "sub(" + key + "," + lo.key() + "," + hi.key() + ")"
			r := Str{[]strPart{{term: term}}}
			x.byteStrs[term] = byteSrc{func(st *State, i Lin) Val { return src.at(st, lo.add(i)) }, hi.sub(lo)}
			d := x.strLen(st, r).sub(hi.sub(lo))
			st.addCons(d)
			st.addCons(d.neg())

			return r
		}

		r := sl
		r.off, r.len, r.cap = sl.off.add(lo), hi.sub(lo), sl.cap.sub(lo)

		return r
	}

	num := func(what string) Lin {
		return numOf(x.fresh(st, types.Typ[types.Int], what+"("+key+")"))
	}

	if isRe {
		re, ok := c.args[0].(Ptr)
		if !ok || re.obj == 0 {
			return false, nil
		}

		o := st.obj(re.obj)
		if o == nil || !strings.HasPrefix(o.name, "regexp:") {
			return false, nil
		}

		text := strings.TrimPrefix(o.name, "regexp:")
		e, err := syntax.Parse(text, syntax.Perl)

		if err != nil {
			return false, nil
		}

		e = e.Simplify()
		lo, hi := num("start of "+text), num("end of "+text)
		matched := bddVar(atomOf("match(" + text + "," + key + ")"))

		// where each group may be
		groups := e.MaxCap() + 1
		at := []Lin{lo, hi}
		facts := bAnd(bAnd(bGE(lo), bGE(hi.sub(lo).addConst(-int64(reMin(e))))), bGE(src.len.sub(hi)))

		if reBegins(e) {
			facts = bAnd(facts, bEQ(lo))
		}

		for g := 1; g < groups; g++ {
			f, sure := reGroup(e, g)
			if !sure {
				return false, nil
			}

			a, b := num(fmt.Sprintf("start of group %d of %s", g, text)), num(fmt.Sprintf("end of group %d of %s", g, text))
			facts = bAnd(facts, bAnd(bAnd(bGE(a.sub(lo)), bGE(b.sub(a).addConst(-int64(reMin(f))))), bGE(hi.sub(b))))
			at = append(at, a, b)
		}

		op := strings.TrimPrefix(c.name, "regexp.Regexp.")
		if op == "Match" || op == "MatchString" {
			return c.ret(Boo{matched})
		}

		none := st.fork()

		var outs []Outcome

		if none.assume(bNot(matched)) {
			outs = append(outs, Outcome{st: none, vals: []Val{x.zeroVal(c.sig.Results().At(0).Type())}})
		}

		if !st.assume(bAnd(matched, facts)) {
			return true, outs
		}

		var v Val

		switch op {
		case "FindIndex", "FindStringIndex":
			v = st.newSlice(types.Typ[types.Int], []Val{Num{lo}, Num{hi}})
		case "FindSubmatchIndex", "FindStringSubmatchIndex":
			var vs []Val
			for _, l := range at {
				vs = append(vs, Num{l})
			}

			v = st.newSlice(types.Typ[types.Int], vs)
		case "Find", "FindString":
			v = sub(lo, hi)
		case "FindSubmatch", "FindStringSubmatch":
			var vs []Val
			for g := 0; g < groups; g++ {
				vs = append(vs, sub(at[2*g], at[2*g+1]))
			}

			et := types.Type(types.Typ[types.String])
			if op == "FindSubmatch" {
				et = types.NewSlice(types.Typ[types.Byte])
			}

			v = st.newSlice(et, vs)
		default:
			return false, nil
		}

		return true, append(outs, Outcome{st: st, vals: []Val{v}})
	}

	// a rune: at least one byte unless there is none
	first := func() (Lin, Lin) {
		r, w := num("rune"), num("runewidth")
		b0 := numOf(src.at(st, linC(0)))
		some := bGE(src.len.addConst(-1))
		ascii := bAnd(some, bGE(linC(127).sub(b0)))

		st.facts = bAnd(st.facts, bAnd(bAnd(bGE(w), bGE(linC(4).sub(w))), bAnd(bGE(src.len.sub(w)), bIff(some, bGE(w.addConst(-1))))))
		st.facts = bAnd(st.facts, bImp(ascii, bAnd(bEQ(w.addConst(-1)), bEQ(r.sub(b0)))))
		st.facts = bAnd(st.facts, bImp(bAnd(some, bNot(ascii)), bGE(r.addConst(-128))))
		st.facts = bAnd(st.facts, bAnd(bGE(r), bGE(linC(utf8.MaxRune).sub(r))))

		return r, w
	}

	switch c.name {
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		r, w := first()
		return c.ret(Num{r}, Num{w})
	case "unicode/utf8.FullRune", "unicode/utf8.FullRuneInString":
		full := bddVar(atomOf("fullrune(" + key + ")"))
		b0 := numOf(src.at(st, linC(0)))
		some := bGE(src.len.addConst(-1))
		st.facts = bAnd(st.facts, bAnd(bImp(full, some), bImp(bAnd(some, bGE(linC(127).sub(b0))), full)))
		st.facts = bAnd(st.facts, bImp(bGE(src.len.addConst(-4)), full))

		return c.ret(Boo{full})
	case "unicode/utf8.Valid", "unicode/utf8.ValidString":
		return c.ret(Boo{bddVar(atomOf("validutf8(" + key + ")"))})
	case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
		n := num("runecount")
		st.facts = bAnd(st.facts, bAnd(bGE(n), bGE(src.len.sub(n))))

		return c.ret(Num{n})
	case "bytes.Clone":
		if sl.obj == 0 {
			return false, nil
		}

		o := st.obj(sl.obj).copy()
		id := st.newObj(o)
		r := sl
		r.obj = id

		return c.ret(r)
	case "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Equal", "bytes.Index", "bytes.IndexByte", "bytes.IndexRune", "bytes.LastIndex", "bytes.Contains", "bytes.Cut", "bytes.CutPrefix", "bytes.TrimPrefix":
	default:
		return false, nil
	}

	var q []byte

	if n, ok := constInt(c.args[1]); ok {
		q = []byte(string(rune(n)))
		if c.name == "bytes.IndexByte" {
			q = []byte{byte(n)}
		}
	} else if q, ok = st.bytesOf(c.args[1]); !ok {
		return false, nil
	}

	n := int64(len(q))
	prefix := bAnd(bGE(src.len.addConst(-n)), x.bytesAre(st, byteSrc{src.at, linC(n)}, string(q)))

	switch c.name {
	case "bytes.HasPrefix":
		return c.ret(Boo{prefix})
	case "bytes.Equal":
		return c.ret(Boo{x.bytesAre(st, src, string(q))})
	case "bytes.CutPrefix", "bytes.TrimPrefix":
		no := st.fork()

		var outs []Outcome

		put := func(st *State, v Val, ok *bdd) {
			vs := []Val{v}
			if c.name == "bytes.CutPrefix" {
				vs = append(vs, Boo{ok})
			}

			outs = append(outs, Outcome{st: st, vals: vs})
		}

		if st.assume(prefix) {
			put(st, sub(linC(n), src.len), bddTrue)
		}

		if no.assume(bNot(prefix)) {
			put(no, in, bddFalse)
		}

		return true, outs
	}

	k := num(fmt.Sprintf("%s of %q in ", map[bool]string{true: "last index", false: "index"}[c.name == "bytes.LastIndex"], q))
	found := bGE(k)
	st.facts = bAnd(st.facts, bAnd(bGE(k.addConst(1)), bImp(found, bGE(src.len.sub(k).addConst(-n)))))

	switch c.name {
	case "bytes.HasSuffix":
		has := bddVar(atomOf(fmt.Sprintf("suffix(%q,%s)", q, key)))
		st.facts = bAnd(st.facts, bImp(has, bGE(src.len.addConst(-n))))

		return c.ret(Boo{has})
	case "bytes.Contains":
		return c.ret(Boo{found})
	case "bytes.Cut":
		no := st.fork()

		var outs []Outcome

		if st.assume(found) {
			outs = append(outs, Outcome{st: st, vals: []Val{sub(linC(0), k), sub(k.addConst(n), src.len), Boo{bddTrue}}})
		}

		if no.assume(bNot(found)) {
			outs = append(outs, Outcome{st: no, vals: []Val{in, x.zeroVal(c.sig.Results().At(1).Type()), Boo{bddFalse}}})
		}

		return true, outs
	}

	return c.ret(Num{k})
}

// reMin is the length of the shortest text a regular expression matches.
func reMin(e *syntax.Regexp) int {
	switch e.Op {
	case syntax.OpLiteral:
		n := 0
		for _, r := range e.Rune {
			n += utf8.RuneLen(r)
		}

		return n
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return reMin(e.Sub[0])
	case syntax.OpRepeat:
		return e.Min * reMin(e.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range e.Sub {
			n += reMin(s)
		}

		return n
	case syntax.OpAlternate:
		n := reMin(e.Sub[0])
		for _, s := range e.Sub[1:] {
			n = min(n, reMin(s))
		}

		return n
	}

	return 0
}

// reBegins: a match is at the beginning of the text.
func reBegins(e *syntax.Regexp) bool {
	switch e.Op {
	case syntax.OpBeginText:
		return true
	case syntax.OpConcat, syntax.OpCapture:
		return len(e.Sub) > 0 && reBegins(e.Sub[0])
	}

	return false
}

// reGroup finds a group that is part of every match.
func reGroup(e *syntax.Regexp, g int) (*syntax.Regexp, bool) {
	if e.Op == syntax.OpCapture && e.Cap == g {
		return e, true
	}

	if e.Op != syntax.OpConcat && e.Op != syntax.OpCapture {
		return nil, false
	}

	for _, s := range e.Sub {
		if f, ok := reGroup(s, g); ok {
			return f, true
		}
	}

	return nil, false
}

func (x *Interp) ints(st *State, ns []int) Val {
	if ns == nil {
		return x.zeroVal(types.NewSlice(types.Typ[types.Int]))
	}

	var vs []Val
	for _, n := range ns {
		vs = append(vs, Num{linC(int64(n))})
	}

	return st.newSlice(types.Typ[types.Int], vs)
}

// sorted models the functions that sort a slice in place, if its elements are
// known and the order of each two of them is decided.
func (x *Interp) sorted(c *CallCtx) (bool, []Outcome) {
	switch c.name {
	case "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
	default:
		return false, nil
	}

	st := c.st

	sl, ok := unbox(c.args[0]).(Slc)
	if !ok || sl.obj == 0 {
		return false, nil
	}

	es, ok := st.elemsOf(sl)
	if !ok || len(es) > 256 {
		return false, nil
	}

	es = slices.Clone(es)

	off, ok := sl.off.isConst()
	if !ok {
		return false, nil
	}

	put := func() {
		for k, e := range es {
			st.setElem(sl.obj, linC(off+int64(k)), e)
		}
	}

	// before(i, j): element i belongs before element j
	before := func(i, j int) (bool, bool) {
		switch c.name {
		case "sort.Ints", "sort.Strings", "slices.Sort":
			if a, ok := constInt(es[i]); ok {
				b, ok := constInt(es[j])
				return a < b, ok
			}

			a, ok1 := es[i].(Str)
			b, ok2 := es[j].(Str)

			if !ok1 || !ok2 {
				return false, false
			}

			p, ok1 := a.constant()
			q, ok2 := b.constant()

			return p < q, ok1 && ok2
		case "sort.Slice", "sort.SliceStable":
			outs := live(x.callVal(c.fr, st, c.instr, c.args[1], []Val{Num{linC(int64(i))}, Num{linC(int64(j))}}, false))
			if len(outs) != 1 || outs[0].panic || len(outs[0].vals) != 1 {
				return false, false
			}

			b, ok := outs[0].vals[0].(Boo)
			if !ok {
				return false, false
			}

			st = outs[0].st
			d := st.decide(b.b)

			return d == 1, d >= 0
		default:
			outs := live(x.callVal(c.fr, st, c.instr, c.args[1], []Val{es[i], es[j]}, false))
			if len(outs) != 1 || outs[0].panic || len(outs[0].vals) != 1 {
				return false, false
			}

			n, ok := outs[0].vals[0].(Num)
			if !ok {
				return false, false
			}

			st = outs[0].st

			switch {
			case st.proves(n.l.mulC(-1).addConst(-1)):
				return true, true
			case st.proves(n.l):
				return false, true
			}

			return false, false
		}
	}

	for i := 1; i < len(es); i++ {
		for j := i; j > 0; j-- {
			less, ok := before(j, j-1)
			if !ok {
				// some order
				st.havocObj(sl.obj)
				return true, []Outcome{{st: st}}
			}

			if !less {
				break
			}

			es[j], es[j-1] = es[j-1], es[j]

			put()
		}
	}

	return true, []Outcome{{st: st}}
}

// inserted models slices.Insert and slices.Delete.
func (x *Interp) inserted(c *CallCtx) (bool, []Outcome) {
	if c.name != "slices.Insert" && c.name != "slices.Delete" || len(c.args) != 3 {
		return false, nil
	}

	st := c.st

	s, ok := c.args[0].(Slc)
	if !ok {
		return false, nil
	}

	t := c.sig.Results().At(0).Type()
	et := sliceElem(t)
	i := numOf(c.args[1])

	st.assume(bAnd(bGE(i), bGE(s.len.sub(i))))

	es, known := st.elemsOf(s)
	at, okAt := i.isConst()

	var l Lin

	if c.name == "slices.Insert" {
		vs, ok := c.args[2].(Slc)
		if !ok {
			return false, nil
		}

		add, ok := st.elemsOf(vs)
		if known && okAt && ok && at <= int64(len(es)) {
			return c.ret(st.newSlice(et, slices.Concat(es[:at], add, es[at:])))
		}

		l = s.len.add(vs.len)
	} else {
		j := numOf(c.args[2])
		st.assume(bAnd(bGE(j.sub(i)), bGE(s.len.sub(j))))

		to, ok := j.isConst()
		if known && okAt && ok && to <= int64(len(es)) {
			return c.ret(st.newSlice(et, slices.Concat(es[:at], es[to:])))
		}

		l = s.len.sub(j).add(i)
	}

	r, ok := x.fresh(st, t, freshName("inserted")).(Slc)
	if !ok {
		return false, nil
	}

	st.addCons(r.len.sub(l))
	st.addCons(l.sub(r.len))

	r.len = l

	return c.ret(r)
}
