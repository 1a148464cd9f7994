package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *fexec) callee(n *Node, in ssa.CallInstruction) Val {
	cc := in.Common()
	if cc.IsInvoke() {
		return e.val(n, cc.Value)
	}

	return e.val(n, cc.Value)
}

func (e *fexec) args(n *Node, in ssa.CallInstruction) []Val {
	var out []Val
	for _, a := range in.Common().Args {
		out = append(out, e.val(n, a))
	}

	return out
}

func (e *fexec) ctx(n *Node, in ssa.CallInstruction) *CallCtx {
	return e.x.resolve(e.fr, n.st, in, e.callee(n, in), e.args(n, in))
}

// resolve finds what a call calls.
func (x *Interp) resolve(fr *Frame, st *State, in ssa.CallInstruction, fv Val, args []Val) *CallCtx {
	c := &CallCtx{x: x, fr: fr, st: st, instr: in, args: args}
	cc := in.Common()
	c.sig = cc.Signature()

	if cc.IsInvoke() {
		iv, ok := fv.(Ifc)
		if ok && iv.typ != nil {
			if m := x.p.prog.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.callee = m
				c.args = append([]Val{iv.val}, args...)
				c.name = fnFullName(m)

				return c
			}
		}

		c.name = "iface:" + typeName(cc.Value.Type()) + "." + cc.Method.Name()
		c.args = append([]Val{fv}, args...)

		return c
	}

	f, ok := fv.(Fun)
	if !ok {
		c.name = "dyn:" + typeName(cc.Value.Type())
		return c
	}

	c.fun = f

	if f.fn != nil {
		c.callee = f.fn
		c.name = fnFullName(f.fn)

		return c
	}

	if strings.HasPrefix(f.term, "builtin.") {
		c.name = f.term
		return c
	}

	c.name = "dyn:" + typeName(cc.Value.Type())

	return c
}

// call interprets a call instruction.
func (e *fexec) call(n *Node, in *ssa.Call) []*Node {
	c := e.ctx(n, in)
	outs := e.x.doCall(c, false)

	var nodes []*Node

	for i, o := range outs {
		m := &Node{st: o.st, env: n.env, defers: n.defers}
		if len(outs) > 1 && i > 0 {
			m.env = copyEnv(n.env)
		}

		if o.panic {
			m.env = copyEnv(n.env)
			if m.st.panic == nil {
				m.st.panic = Opq{"panic"}
			}

			e.unwind(m)

			continue
		}

		m.env = copyEnv(n.env)

		rs := in.Call.Signature().Results()
		switch rs.Len() {
		case 0:
		case 1:
			if len(o.vals) < 1 {
				panic("no result of " + c.name)
			}

			m.env[in] = o.vals[0]
		default:
			if len(o.vals) != rs.Len() {
				panic(fmt.Sprintf("%d results of %s", len(o.vals), c.name))
			}

			m.env[in] = Tup{o.vals}
		}

		nodes = append(nodes, m)
	}

	return nodes
}

// callVal calls a deferred function.
func (x *Interp) callVal(fr *Frame, st *State, in ssa.CallInstruction, fv Val, args []Val, deferred bool) []Outcome {
	return x.doCall(x.resolve(fr, st, in, fv, args), deferred)
}

func (x *Interp) doCall(c *CallCtx, deferred bool) []Outcome {
	x.step()

	if h := x.hooks.call; h != nil {
		if done, outs := h(c); done {
			return live(outs)
		}
	}

	if done, outs := x.model(c); done {
		return live(outs)
	}

	if c.callee != nil && len(c.callee.Blocks) > 0 && x.inlined(c.callee) {
		return live(x.run(c.callee, c.args, c.fun.binds, c.st, c.fr, c.instr, deferred))
	}

	return x.opaque(c)
}

func live(outs []Outcome) []Outcome {
	var r []Outcome

	for _, o := range outs {
		if !o.st.dead && o.st.facts != bddFalse {
			r = append(r, o)
		}
	}

	return r
}

func (x *Interp) inlined(f *ssa.Function) bool {
	if x.p.inRepo(f) {
		return true
	}

	if strings.HasPrefix(f.Synthetic, "bound method wrapper") || strings.HasPrefix(f.Synthetic, "thunk") {
		return true
	}

	// wrappers of the repository's methods, and closures
	if f.Synthetic != "" && (fnPkg(f) == nil || isRepoPath(fnPkg(f).Path())) {
		return true
	}

	pk := fnPkg(f)

	return pk != nil && x.inlineX[pk.Path()]
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "errors": true, "bytes": true,
	"github.com/rivo/uniseg": true, "github.com/mattn/go-runewidth": true, "math/bits": true, "regexp": true,
	"github.com/charmbracelet/x/ansi": true, "time": false,
}

// opaque is a call of which only the signature is known.
func (x *Interp) opaque(c *CallCtx) []Outcome {
	st := c.st
	pure := false

	if c.callee != nil {
		if pk := fnPkg(c.callee); pk != nil {
			pure = purePkgs[pk.Path()]
		}
	}

	if !pure {
		for _, a := range c.args {
			x.havocArg(st, a, 0)
		}
	}

	term := freshName(c.name)

	if pure {
		var b strings.Builder

		b.WriteString(c.name)
		b.WriteByte('(')

		for _, a := range c.args {
			b.WriteString(x.deepKey(st, a))
			b.WriteByte(',')
		}

		b.WriteByte(')')

		term = b.String()
	}

	var vals []Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		t := term
		if c.sig.Results().Len() > 1 {
			t += fmt.Sprintf(".%d", i)
		}

		vals = append(vals, x.fresh(st, c.sig.Results().At(i).Type(), t))
	}

	return []Outcome{{st: st, vals: vals}}
}

// deepKey identifies a value with the contents of the slices it refers to.
func (x *Interp) deepKey(st *State, v Val) string {
	if s, ok := v.(Slc); ok && s.obj != 0 {
		if o := st.obj(s.obj); o != nil {
			k := valKey(v) + "="
			if o.conc {
				for _, el := range o.elems {
					k += valKey(el) + ","
				}

				return k
			}

			return k + o.term + fmt.Sprint(len(o.known))
		}
	}

	if i, ok := v.(Ifc); ok && i.typ != nil {
		return valKey(v) + x.deepKey(st, i.val)
	}

	return valKey(v)
}

func (x *Interp) havocArg(st *State, v Val, depth int) {
	if depth > 2 {
		return
	}

	switch v := v.(type) {
	case Ptr:
		if v.obj != 0 {
			if _, isG := x.gname[v.obj]; isG {
				return
			}

			st.havocObj(v.obj)
		}
	case Slc:
		if v.obj != 0 {
			st.havocObj(v.obj)
		}
	case Ifc:
		if v.typ != nil {
			x.havocArg(st, v.val, depth+1)
		}
	case Fun:
		for _, b := range v.binds {
			x.havocArg(st, b, depth+1)
		}
	}
}

// elemsOf are the elements of a slice of known length.
func (st *State) elemsOf(v Val) ([]Val, bool) {
	s, ok := v.(Slc)
	if !ok {
		return nil, false
	}

	n, ok := s.len.isConst()
	if !ok {
		return nil, false
	}

	if n == 0 || s.nil_ == bddTrue {
		return nil, true
	}

	off, ok := s.off.isConst()
	o := st.obj(s.obj)

	if !ok || o == nil || n > 4096 {
		return nil, false
	}

	if !o.conc {
		if n > 64 {
			return nil, false
		}

		var out []Val
		for i := int64(0); i < n; i++ {
			out = append(out, st.elem(s.obj, linC(off+i)))
		}

		return out, true
	}

	if off+n > int64(len(o.elems)) {
		return nil, false
	}

	return o.elems[off : off+n], true
}

func errTerm(v Val) (string, *bdd, string) {
	i, ok := v.(Ifc)
	if !ok {
		return "", bddFalse, ""
	}

	if i.nil_ == bddTrue {
		return "", bddTrue, ""
	}

	t := i.term
	if i.typ != nil {
		t = "" // a concrete error
	}

	return t, i.nil_, i.errs
}

// wrapErr is an error that wraps others.
func wrapErr(nil_ *bdd, parts ...Val) Ifc {
	r := Ifc{nil_: nil_, term: freshName("error")}
	seen := map[string]bool{}

	for _, p := range parts {
		if i, ok := p.(Ifc); ok && i.typ != nil {
			p = i
		}

		t, _, errs := errTerm(p)
		for _, e := range append(strings.Split(errs, ","), t) {
			if e != "" && !seen[e] {
				seen[e] = true
				r.errs += "," + e + ","
			}
		}
	}

	return r
}

// ifaceArg undoes the conversion of an argument to an interface.
func unbox(v Val) Val {
	if i, ok := v.(Ifc); ok && i.typ != nil {
		return i.val
	}

	return v
}

// model interprets builtins and some functions outside of the repository.
func (x *Interp) model(c *CallCtx) (bool, []Outcome) {
	st := c.st

	if c.callee != nil && !x.p.inRepo(c.callee) {
		if done, outs := x.constFold(c); done {
			return done, outs
		}

		if done, outs := x.constBytes(c); done {
			return done, outs
		}

		if done, outs := x.symBytes(c); done {
			return done, outs
		}

		if done, outs := x.inserted(c); done {
			return done, outs
		}

		if done, outs := x.sorted(c); done {
			return done, outs
		}
	}

	switch c.name {
	case "context.WithCancel":
		// a context derived from the argument
		return c.ret(Ifc{nil_: bddFalse, term: freshName("withCancel(" + valKey(c.args[0]) + ")")}, Fun{term: freshName("cancel"), nil_: bddFalse})
	case "builtin.len":
		return c.ret(Num{x.lenOf(st, c.args[0])})
	case "builtin.cap":
		if s, ok := c.args[0].(Slc); ok {
			return c.ret(Num{s.cap})
		}

		return c.ret(x.fresh(st, types.Typ[types.Int], freshName("cap")))
	case "builtin.append":
		return c.ret(x.appendSlice(st, c.args[0], c.args[1], c.sig.Params().At(0).Type()))
	case "builtin.copy":
		return c.ret(x.copySlice(st, c.args[0], c.args[1]))
	case "builtin.min", "builtin.max":
		if x.splitMax && c.name == "builtin.max" && len(c.args) == 2 {
			for i, a := range c.args {
				if k, ok := constInt(a); ok && k == 0 {
					n, ok := c.args[1-i].(Num)
					if !ok || st.decide(bGE(n.l)) >= 0 {
						continue
					}

					var outs []Outcome

					st.split(bGE(n.l), func(st *State, v bool) {
						r := a
						if v {
							r = n
						}

						outs = append(outs, Outcome{st: st, vals: []Val{r}})
					})

					return true, outs
				}
			}
		}

		return c.ret(x.minmax(st, c.args, c.name == "builtin.min", c.sig.Results().At(0).Type()))
	case "builtin.recover":
		if st.panic != nil && c.fr.deferred {
			v := st.panic
			st.panic = nil

			if i, ok := v.(Ifc); ok {
				i.nil_ = bddFalse
				return c.ret(i)
			}

			return c.ret(Ifc{nil_: bddFalse, term: freshName("recovered")})
		}

		return c.ret(Ifc{nil_: bddTrue})
	case "builtin.close":
		if h := x.hooks.close; h != nil {
			h(c.fr, st, c.args[0], c.instr)
		}

		return c.ret()
	case "builtin.print", "builtin.println":
		return c.ret()
	case "builtin.clear":
		x.clearVal(st, c.args[0])
		return c.ret()
	case "builtin.delete":
		if x.fmaps {
			return true, x.mapDelete(c)
		}

		if r, ok := c.args[0].(Ref); ok && r.obj != 0 {
			st.havocObj(r.obj)
			st.heap[r.obj].conc = false
		}

		return c.ret()
	case "builtin.ssa:wrapnilchk":
		return c.ret(c.args[0])
	case "errors.New":
		return c.ret(Ifc{nil_: bddFalse, term: freshName("error")})
	case "fmt.Errorf":
		return true, x.errorf(c)
	case "errors.Join":
		es, ok := st.elemsOf(c.args[0])
		if !ok {
			r := wrapErr(bddVar(atomOf(freshName("joinnil"))))
			if s, ok := c.args[0].(Slc); ok {
				// the causes every element is known to be among
				if w, ok := st.gv["errs:"+fmt.Sprint(s.obj)].(Ifc); ok {
					r.errs = w.errs
				}
			}

			return c.ret(r)
		}

		n := bddTrue
		for _, e := range es {
			_, b, _ := errTerm(e)
			n = bAnd(n, b)
		}

		return c.ret(wrapErr(n, es...))
	case "(*sync.Once).Do", "sync.Once.Do":
		return true, x.once(c)
	case "sync.Mutex.Lock", "sync.Mutex.Unlock", "sync.RWMutex.Lock", "sync.RWMutex.Unlock", "sync.RWMutex.RLock", "sync.RWMutex.RUnlock",
		"sync.WaitGroup.Add", "sync.WaitGroup.Done", "sync.WaitGroup.Wait":
		return c.ret()
	case "strings.Builder.WriteString", "strings.Builder.WriteByte", "strings.Builder.WriteRune":
		if p, ok := c.args[0].(Ptr); ok && p.obj != 0 {
			k := fmt.Sprintf("sb:%d%s", p.obj, p.path)
			cur, _ := st.gv[k].(Str)

			add, ok := c.args[1].(Str)
			if !ok {
				if n, isN := constInt(c.args[1]); isN {
					if c.name == "strings.Builder.WriteByte" {
						add = strC(string([]byte{byte(n)}))
					} else {
						add = strC(string(rune(n)))
					}
				} else {
					add = Str{[]strPart{{term: "rune(" + valKey(c.args[1]) + ")"}}}
				}
			}

			st.setGV(k, cur.cat(add))

			switch c.sig.Results().Len() {
			case 1:
				return c.ret(Ifc{nil_: bddTrue})
			case 2:
				return c.ret(Num{x.strLen(st, add)}, Ifc{nil_: bddTrue})
			}

			return c.ret()
		}
	case "strings.Builder.String", "strings.Builder.Len":
		if p, ok := c.args[0].(Ptr); ok && p.obj != 0 {
			cur, _ := st.gv[fmt.Sprintf("sb:%d%s", p.obj, p.path)].(Str)
			if c.name == "strings.Builder.String" {
				return c.ret(cur)
			}

			return c.ret(Num{x.strLen(st, cur)})
		}
	case "strings.Builder.Grow", "strings.Builder.Reset":
		if c.name == "strings.Builder.Reset" {
			if p, ok := c.args[0].(Ptr); ok {
				st.setGV(fmt.Sprintf("sb:%d%s", p.obj, p.path), Str{})
			}
		}

		return c.ret()
	case "fmt.Sprintf", "fmt.Sprint":
		if s, ok := x.sprintf(c, c.name == "fmt.Sprintf"); ok {
			return c.ret(s)
		}
	case "strconv.Itoa":
		return c.ret(itoa(c.args[0]))
	case "strconv.FormatInt":
		if b, ok := constInt(c.args[1]); ok && b == 10 {
			return c.ret(itoa(c.args[0]))
		}
	case "strings.Repeat":
		s, ok1 := c.args[0].(Str)
		n, ok2 := constInt(c.args[1])

		if ok1 && ok2 && n >= 0 && n < 256 {
			r := Str{}
			for i := int64(0); i < n; i++ {
				r = r.cat(s)
			}

			return c.ret(r)
		}
	case "strings.Join":
		es, ok := st.elemsOf(c.args[0])
		sep, ok2 := c.args[1].(Str)

		if ok && ok2 {
			r := Str{}

			for i, el := range es {
				if i > 0 {
					r = r.cat(sep)
				}

				s, ok := el.(Str)
				if !ok {
					return false, nil
				}

				r = r.cat(s)
			}

			return c.ret(r)
		}
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if s, ok := c.args[0].(Str); ok {
			if k, ok := s.constant(); ok {
				switch c.name {
				case "strings.ToLower":
					return c.ret(strC(strings.ToLower(k)))
				case "strings.ToUpper":
					return c.ret(strC(strings.ToUpper(k)))
				}

				return c.ret(strC(strings.TrimSpace(k)))
			}
		}
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok1 := c.args[0].(Str)
		b, ok2 := c.args[1].(Str)

		if ok1 && ok2 {
			ca, k1 := a.constant()
			cb, k2 := b.constant()

			if k1 && k2 {
				switch c.name {
				case "strings.HasPrefix":
					return c.ret(Boo{bddConst(strings.HasPrefix(ca, cb))})
				case "strings.HasSuffix":
					return c.ret(Boo{bddConst(strings.HasSuffix(ca, cb))})
				}

				return c.ret(Boo{bddConst(strings.Contains(ca, cb))})
			}

			if k2 && cb == "" {
				return c.ret(Boo{bddTrue})
			}
		}
	case "math.Round", "math.Floor", "math.Ceil", "math.Trunc":
		if f, ok := c.args[0].(Flt); ok {
			if f.lo != nil && f.hi != nil && f.lo.eq(*f.hi) {
				return c.ret(f)
			}

			hi := f.hi
			if c.name == "math.Floor" && f.open {
				hi = lp(f.hi.addConst(-1))
			}

			return c.ret(Flt{term: c.name + "(" + x.fltKey(f) + ")", lo: f.lo, hi: hi})
		}
	case "math.Min", "math.Max":
		a, ok1 := c.args[0].(Flt)
		b, ok2 := c.args[1].(Flt)

		if ok1 && ok2 {
			r := Flt{term: c.name + "(" + valKey(a) + "," + valKey(b) + ")"}
			pick := func(p, q *Lin, low bool) *Lin {
				// the bound that holds for either
				switch {
				case p == nil || q == nil:
					return nil
				case st.provesQuick(p.sub(*q)):
					if low {
						return q
					}

					return p
				case st.provesQuick(q.sub(*p)):
					if low {
						return p
					}

					return q
				}

				return nil
			}

			if c.name == "math.Max" {
				// at least each lower bound
				r.lo = a.lo
				if r.lo == nil || b.lo != nil && st.provesQuick(b.lo.sub(*r.lo)) {
					r.lo = b.lo
				}

				r.hi = pick(a.hi, b.hi, false)
			} else {
				r.hi = a.hi
				if r.hi == nil || b.hi != nil && st.provesQuick(r.hi.sub(*b.hi)) {
					r.hi = b.hi
				}

				r.lo = pick(a.lo, b.lo, true)
			}

			return c.ret(r)
		}
	case "github.com/rivo/uniseg.StringWidth", "github.com/mattn/go-runewidth.StringWidth", "github.com/mattn/go-runewidth.RuneWidth":
		outs := x.opaque(c)
		st.addCons(numOf(outs[0].vals[0]))

		return true, outs
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "bytes.IndexByte", "bytes.IndexAny", "strings.LastIndex":
		outs := x.opaque(c)
		n := numOf(outs[0].vals[0])
		st.addCons(n.addConst(1))
		st.addCons(x.lenOf(st, c.args[0]).sub(n))

		return true, outs
	case "bytes.Index":
		outs := x.opaque(c)
		n := numOf(outs[0].vals[0])
		st.addCons(n.addConst(1))
		// found: the whole of it is inside
		st.facts = bAnd(st.facts, bImp(bGE(n), bGE(x.lenOf(st, c.args[0]).sub(n).sub(x.lenOf(st, c.args[1])))))

		return true, outs
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString":
		outs := x.opaque(c)
		n := numOf(outs[0].vals[1])
		l := x.lenOf(st, c.args[0])
		st.addCons(n)
		st.addCons(linC(4).sub(n))
		st.addCons(l.sub(n))
		// nothing is consumed only from nothing
		st.facts = bAnd(st.facts, bImp(bGE(l.addConst(-1)), bGE(n.addConst(-1))))

		return true, outs
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount", "unicode/utf8.RuneLen":
		outs := x.opaque(c)
		n := numOf(outs[0].vals[0])
		if c.name != "unicode/utf8.RuneLen" {
			st.addCons(n)
			st.addCons(x.lenOf(st, c.args[0]).sub(n))
		}

		return true, outs
	case "sync/atomic.AddInt64", "sync/atomic.AddUint64", "sync/atomic.AddInt32", "sync/atomic.AddUint32":
		if p, ok := c.args[0].(Ptr); ok && p.obj != 0 {
			t := c.sig.Results().At(0).Type()
			v := Num{numOf(x.load(st, p, t)).add(numOf(c.args[1]))}
			x.store(c.fr, st, c.instr, p, v)

			return c.ret(v)
		}
	}

	return false, nil
}

func itoa(v Val) Str {
	if n, ok := constInt(v); ok {
		return strC(fmt.Sprint(n))
	}

	if n, ok := v.(Num); ok {
		l := n.l
		return Str{[]strPart{{num: &l}}}
	}

	return Str{[]strPart{{term: "itoa(" + valKey(v) + ")"}}}
}

func (x *Interp) lenOf(st *State, v Val) Lin {
	switch v := v.(type) {
	case Slc:
		return v.len
	case Str:
		return x.strLen(st, v)
	case Tup:
		return linC(int64(len(v.fs)))
	case Ref:
		if o := st.obj(v.obj); o != nil && o.conc {
			return linC(int64(len(o.keys)))
		}

		if v.nil_ == bddTrue {
			return linC(0)
		}

		t := v.term
		if o := st.obj(v.obj); o != nil {
			t = o.term
		}

		s := symOf("len(" + t + ")")
		syms[s].lo = i64(0)

		return linS(s)
	}

	s := symOf("len(" + valKey(v) + ")")
	syms[s].lo = i64(0)

	return linS(s)
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}

	return types.Typ[types.Byte]
}

func (x *Interp) appendSlice(st *State, a, b Val, t types.Type) Val {
	if s, ok := b.(Str); ok {
		b = x.strToSlice(st, s, t.Underlying().(*types.Slice))
	}

	sa, ok1 := a.(Slc)
	sb, ok2 := b.(Slc)

	if !ok1 || !ok2 {
		return x.fresh(st, t, freshName("append"))
	}

	if c, ok := sb.len.isConst(); ok && c == 0 {
		return sa
	}

	et := sliceElem(t)
	ea, k1 := st.elemsOf(a)
	eb, k2 := st.elemsOf(b)

	var from ObjID
	if oa := st.obj(sa.obj); oa != nil {
		if from = oa.from; !sa.cap.sub(sa.len).eq(linC(0)) && sa.nil_ != bddTrue {
			from = sa.obj
		}
	}

	if k1 && k2 && len(ea)+len(eb) <= 4096 {
		r := st.newSlice(et, append(append([]Val(nil), ea...), eb...))
		st.obj(r.obj).from = from
		x.joinErrs(st, sa.obj, r.obj, eb)

		return r
	}

	l := sa.len.add(sb.len)
	o := &Obj{typ: et, kind: 'a', term: freshName("append"), known: map[string]Val{}, kidx: map[string]Lin{}, from: from}

	if oa := st.obj(sa.obj); oa != nil && !oa.conc && sa.off.eq(linC(0)) {
		if h := x.hooks.elem; h != nil {
			o.name = oa.name
		}
	}

	if k2 {
		for i, v := range eb {
			at := sa.len.addConst(int64(i))
			o.known[at.key()] = v
			o.kidx[at.key()] = at
		}
	}

	if x.useSegs {
		o.segs = st.joinSegs(append(st.segsOf(sa), st.segsOf(sb)...))
		if len(eb) > 0 && k2 {
			o.segs = nil
		}
	}

	if x.usePos {
		o.pos = meetPos(st.posOf(sa), st.posOf(sb))
	}

	id := st.newObj(o)
	x.joinErrs(st, sa.obj, id, eb)

	n := bddFalse
	if !st.provesQuick(l.addConst(-1)) {
		n = bAnd(sa.nil_, bNot(bGE(sb.len.addConst(-1))))
	}

	c := symOf(freshName("cap"))
	syms[c].lo = i64(0)
	st.addCons(linS(c).sub(l))

	return Slc{obj: id, len: l, cap: linS(c), nil_: n}
}

// joinErrs remembers the causes in a slice of errors.
func (x *Interp) joinErrs(st *State, from, to ObjID, add []Val) {
	var parts []Val

	if w, ok := st.gv["errs:"+fmt.Sprint(from)]; ok && from != 0 {
		parts = append(parts, w)
	}

	for _, v := range add {
		if i, ok := v.(Ifc); ok && (i.errs != "" || i.term != "") {
			parts = append(parts, v)
		}
	}

	if len(parts) > 0 {
		st.setGV("errs:"+fmt.Sprint(to), Ifc{nil_: bddFalse, term: "errs", errs: wrapErr(bddFalse, parts...).errs})
	}
}

func (x *Interp) copySlice(st *State, a, b Val) Val {
	if s, ok := b.(Str); ok {
		b = x.strToSlice(st, s, types.NewSlice(types.Typ[types.Byte]))
	}

	sa, ok1 := a.(Slc)
	sb, ok2 := b.(Slc)

	if !ok1 || !ok2 {
		return x.fresh(st, types.Typ[types.Int], freshName("copied"))
	}

	eb, k2 := st.elemsOf(b)
	na, k1 := sa.len.isConst()

	if k1 && k2 {
		n := min(int(na), len(eb))
		vals := append([]Val(nil), eb[:n]...)

		for i := 0; i < n; i++ {
			st.setElem(sa.obj, sa.off.addConst(int64(i)), vals[i])
		}

		return Num{linC(int64(n))}
	}

	if sa.obj != 0 {
		oa := st.obj(sa.obj)
		if oa != nil {
			n := &Obj{typ: oa.typ, kind: 'a', term: freshName("copy"), name: oa.name, size: oa.size}

			if x.useSegs {
				m, ok := sb.len, st.proves(sa.len.sub(sb.len))
				if !ok {
					m, ok = sa.len, st.proves(sb.len.sub(sa.len))
				}

				if ok {
					part := func(s Slc, lo, n Lin) Slc {
						s.off, s.len = lo, n
						return s
					}

					n.segs = append(st.segsOf(part(sa, linC(0), sa.off)), st.segsOf(part(sb, sb.off, m))...)
					n.segs = st.joinSegs(append(n.segs, st.segsOf(part(sa, sa.off.add(m), sa.len.sub(m)))...))
				}
			}

			if ob := st.obj(sb.obj); ob != nil && !ob.conc && len(ob.known) == 0 && sa.off.eq(linC(0)) && sb.off.eq(linC(0)) &&
				st.provesEQ(sa.len.sub(sb.len)) && st.provesEQ(sa.len.sub(sa.cap)) && !ob.zero {
				n.term = ob.term
			}

			st.heap[sa.obj] = n
		}
	}

	return x.minmax(st, []Val{Num{sa.len}, Num{sb.len}}, true, types.Typ[types.Int])
}

// clearVal zeroes the elements of a slice or removes those of a map.
func (x *Interp) clearVal(st *State, v Val) {
	switch v := v.(type) {
	case Slc:
		n, ok := v.len.isConst()
		if ok && n == 0 || v.obj == 0 {
			return
		}

		if o := st.obj(v.obj); o != nil && o.conc && ok {
			for i := int64(0); i < n; i++ {
				st.setElem(v.obj, v.off.addConst(i), x.zeroVal(o.typ))
			}

			return
		}

		st.havocObj(v.obj)
	case Ref:
		if v.obj != 0 && x.fmaps {
			if o := st.obj(v.obj); o != nil {
				st.heap[v.obj] = &Obj{typ: o.typ, kind: 'm', conc: true, name: o.name}
			}

			return
		}

		if v.obj != 0 {
			st.havocObj(v.obj)
			st.heap[v.obj].conc = false
		}
	}
}

// minmax is the smallest or largest of values.
func (x *Interp) minmax(st *State, args []Val, isMin bool, t types.Type) Val {
	r := args[0]

	for _, a := range args[1:] {
		rn, ok1 := r.(Num)
		an, ok2 := a.(Num)

		if !ok1 || !ok2 {
			if f, ok := x.fltMinmax(st, r, a, isMin); ok {
				r = f
				continue
			}

			return x.fresh(st, t, freshName("minmax"))
		}

		p, q := rn.l, an.l
		d := q.sub(p) // >= 0: p is the smaller

		switch {
		case st.provesQuick(d):
			if !isMin {
				r = a
			}

			continue
		case st.provesQuick(d.neg()):
			if isMin {
				r = a
			}

			continue
		}

		op := "max"
		if isMin {
			op = "min"
		}

		ks := [2]Lin{p, q}
		if p.key() > q.key() {
			ks = [2]Lin{q, p}
		}

		s := symOf(op + "(" + ks[0].String() + "," + ks[1].String() + ")")
		m := linS(s)

		if isMin {
			st.addCons(p.sub(m))
			st.addCons(q.sub(m))
			st.facts = bAnd(st.facts, bOr(bGE(m.sub(p)), bGE(m.sub(q))))
		} else {
			st.addCons(m.sub(p))
			st.addCons(m.sub(q))
			st.facts = bAnd(st.facts, bOr(bGE(p.sub(m)), bGE(q.sub(m))))
		}

		r = Num{m}
	}

	return r
}

// fltMinmax is the smaller or larger of two floats, where their bounds tell.
func (x *Interp) fltMinmax(st *State, a, b Val, isMin bool) (Val, bool) {
	p, ok1 := a.(Flt)
	q, ok2 := b.(Flt)

	if !ok1 || !ok2 {
		return nil, false
	}

	le := func(a, b Flt) bool { return a.hi != nil && b.lo != nil && st.provesQuick(b.lo.sub(*a.hi)) }

	switch {
	case le(p, q):
	case le(q, p):
		p, q = q, p
	default:
		return nil, false
	}

	if isMin {
		return p, true
	}

	return q, true
}

// errorf: the errors at the %w verbs are wrapped.
func (x *Interp) errorf(c *CallCtx) []Outcome {
	var parts []Val

	f, ok := c.args[0].(Str)
	es, ok2 := c.st.elemsOf(c.args[1])

	if ok && ok2 {
		if s, ok := f.constant(); ok {
			for i, v := range verbs(s) {
				if v == 'w' && i < len(es) {
					parts = append(parts, es[i])
				}
			}
		}
	}

	return []Outcome{{st: c.st, vals: []Val{wrapErr(bddFalse, parts...)}}}
}

// verbs lists the verbs of a format, by argument.
func verbs(f string) []byte {
	var out []byte

	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}

		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}

		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}

	return out
}

// sprintf builds a string from plain verbs.
func (x *Interp) sprintf(c *CallCtx, format bool) (Str, bool) {
	i := 0

	var f string

	if format {
		s, ok := c.args[0].(Str)
		if !ok {
			return Str{}, false
		}

		f, ok = s.constant()
		if !ok {
			return Str{}, false
		}

		i = 1
	}

	es, ok := c.st.elemsOf(c.args[i])
	if !ok {
		return Str{}, false
	}

	return x.format(c.st, f, es, format)
}

func (x *Interp) format(st *State, f string, es []Val, format bool) (Str, bool) {
	arg := func(v Val) (Str, bool) {
		var typ types.Type
		if i, ok := v.(Ifc); ok && i.typ != nil {
			typ = i.typ
		}

		if typ == nil {
			return Str{}, false
		}

		// a value with a String or Error method is printed by it
		if ms := types.NewMethodSet(typ); ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			return Str{}, false
		}

		switch u := unbox(v).(type) {
		case Str:
			return u, true
		case Num:
			return itoa(u), true
		case BV:
			if n, ok := u.constant(); ok {
				return strC(fmt.Sprint(n)), true
			}

			return Str{[]strPart{{term: "itoa(" + valKey(u) + ")"}}}, true
		}

		return Str{}, false
	}

	r := Str{}

	if !format {
		for _, e := range es {
			s, ok := arg(e)
			if !ok || len(es) > 1 {
				return Str{}, false
			}

			r = r.cat(s)
		}

		return r, true
	}

	k := 0

	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = r.cat(strC(f[i : i+1]))
			continue
		}

		i++
		if i >= len(f) {
			return Str{}, false
		}

		switch f[i] {
		case '%':
			r = r.cat(strC("%"))
		case 'd', 's', 'v', 'c':
			if k >= len(es) {
				return Str{}, false
			}

			s, ok := arg(es[k])
			if !ok {
				return Str{}, false
			}

			if f[i] == 'c' {
				n, ok := constInt(unbox(es[k]))
				if !ok {
					return Str{}, false
				}

				s = strC(string(rune(n)))
			}

			r = r.cat(s)
			k++
		default:
			// flags and a width: constants only
			j := i
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}

			if j >= len(f) || k >= len(es) || strings.IndexByte("dxXsqoc", f[j]) < 0 {
				return Str{}, false
			}

			s, ok := constArg("%"+f[i:j+1], es[k])
			if !ok {
				return Str{}, false
			}

			r = r.cat(strC(s))
			i = j
			k++
		}
	}

	return r, true
}

// once calls the function the first time.
func (x *Interp) once(c *CallCtx) []Outcome {
	p, ok := c.args[0].(Ptr)
	if !ok {
		return x.opaque(c)
	}

	k := fmt.Sprintf("once:%d%s", p.obj, p.path)
	if _, done := c.st.gv[k]; done {
		return []Outcome{{st: c.st}}
	}

	c.st.setGV(k, Boo{bddTrue})

	f, ok := c.args[1].(Fun)
	if !ok || f.fn == nil {
		return x.opaque(c)
	}

	return x.run(f.fn, nil, f.binds, c.st, c.fr, c.instr, false)
}

// segsOf are the parts a slice is made of.
func (st *State) segsOf(s Slc) []seg {
	if s.obj == 0 || st.provesEQ(s.len) {
		return nil
	}

	o := st.obj(s.obj)
	if o == nil || o.conc || o.zero || len(o.known) > 0 || o.kind != 'a' {
		return []seg{{freshName("content"), linC(0), s.len}}
	}

	if o.segs == nil {
		return []seg{{o.term, s.off, s.len}}
	}

	var out []seg

	at, off, rest := linC(0), s.off, s.len

	for _, g := range o.segs {
		end := at.add(g.len)

		if st.proves(off.sub(end)) {
			at = end
			continue
		}

		// it begins within this part
		skip := off.sub(at)
		if !st.proves(skip) {
			return []seg{{freshName("content"), linC(0), s.len}}
		}

		have := g.len.sub(skip)

		switch {
		case st.proves(have.sub(rest)):
			return append(out, seg{g.base, g.off.add(skip), rest})
		case st.proves(rest.sub(have)):
			out = append(out, seg{g.base, g.off.add(skip), have})
			off, rest, at = end, rest.sub(have), end

			if st.provesEQ(rest) {
				return out
			}
		default:
			return []seg{{freshName("content"), linC(0), s.len}}
		}
	}

	return append(out, seg{freshName("content"), linC(0), rest})
}

// joinSegs drops empty parts and joins those that follow each other.
func (st *State) joinSegs(in []seg) []seg {
	out := []seg{}

	for _, g := range in {
		if st.provesEQ(g.len) {
			continue
		}

		if k := len(out) - 1; k >= 0 && out[k].base == g.base && st.provesEQ(out[k].off.add(out[k].len).sub(g.off)) {
			out[k].len = out[k].len.add(g.len)
			continue
		}

		out = append(out, g)
	}

	return out
}
