package main

import (
	"go/types"
	"strings"
)

// graphemes models text as a sequence of grapheme clusters: a string is a
// concatenation of parts, each of which is one cluster ("g:..."), or text that
// is not known, from which clusters are taken one at a time.
type graphemes struct {
	x      *Interp
	widths map[string]int64 // of clusters; the others have an unknown width
	next   func(st *State, cluster Str, more bool)
}

// graphT stands for the iterator of the library.
var graphT = types.NewStruct([]*types.Var{
	types.NewField(0, nil, "remaining", types.Typ[types.String], false),
	types.NewField(0, nil, "cluster", types.Typ[types.String], false),
}, nil)

const unisegPath = "github.com/rivo/uniseg"

func cluster(name string) Str {
	return Str{[]strPart{{term: "g:" + name}}}
}

func isCluster(p strPart) bool { return strings.HasPrefix(p.term, "g:") }

// width of a string.
func (g *graphemes) width(st *State, s Str) Lin {
	w := linC(0)

	for _, p := range s.parts {
		switch {
		case p.term == "" && p.num == nil:
			w = w.addConst(int64(len([]rune(p.c))))
		default:
			if n, ok := g.widths[p.term]; ok {
				w = w.addConst(n)
				continue
			}

			k := p.term
			if p.num != nil {
				k = p.num.key()
			}

			s := symOf("width(" + k + ")")
			syms[s].lo = i64(0)
			w = w.add(linS(s))
		}
	}

	return w
}

// first takes the first cluster off a string, in each way there is.
func (g *graphemes) first(st *State, s Str, do func(st *State, c, rest Str, ok bool)) {
	if len(s.parts) == 0 {
		do(st, Str{}, Str{}, false)
		return
	}

	p := s.parts[0]

	switch {
	case p.term == "" && p.num == nil:
		rs := []rune(p.c)
		rest := Str{}

		if len(rs) > 1 {
			rest = strC(string(rs[1:]))
		}

		do(st, strC(string(rs[:1])), rest.cat(Str{s.parts[1:]}), true)
	case isCluster(p):
		do(st, Str{s.parts[:1]}, Str{s.parts[1:]}, true)
	default:
		if len(s.parts) == 1 {
			no := st.fork()
			if no.assume(bEQ(g.x.lenOf(no, s))) {
				do(no, Str{}, Str{}, false)
			}
		}

		if st.assume(bGE(g.x.lenOf(st, s).addConst(-1))) {
			n := freshName("cluster")
			do(st, cluster(n), Str{append([]strPart{{term: freshName("text")}}, s.parts[1:]...)}, true)
		}
	}
}

func (g *graphemes) field(st *State, p Val, name string) Val {
	t := graphT
	q, ok := p.(Ptr)

	if !ok || q.obj == 0 {
		panic("unknown graphemes")
	}

	v, ok := st.at(q).(Tup)
	if !ok {
		panic("unknown graphemes")
	}

	return v.fs[fieldIdx(t, name)]
}

func (g *graphemes) setField(st *State, p Val, name string, v Val) {
	t := graphT
	o := st.obj(p.(Ptr).obj).copy()
	fs := append([]Val(nil), o.val.(Tup).fs...)
	fs[fieldIdx(t, name)] = v
	o.val = Tup{fs}
	st.heap[p.(Ptr).obj] = o
}

// call interprets the functions of uniseg.
func (g *graphemes) call(c *CallCtx) (bool, []Outcome) {
	st := c.st

	if !strings.HasPrefix(c.name, unisegPath+".") {
		return false, nil
	}

	str := func(v Val) (Str, bool) { s, ok := v.(Str); return s, ok }

	switch strings.TrimPrefix(c.name, unisegPath+".") {
	case "StringWidth":
		if s, ok := str(c.args[0]); ok {
			return c.ret(Num{g.width(st, s)})
		}
	case "GraphemeClusterCount":
		if s, ok := str(c.args[0]); ok {
			n := 0

			for _, p := range s.parts {
				switch {
				case isCluster(p):
					n++
				case p.term == "" && p.num == nil:
					n += len([]rune(p.c))
				default:
					return false, nil
				}
			}

			return c.ret(Num{linC(int64(n))})
		}
	case "NewGraphemes":
		if s, ok := str(c.args[0]); ok {
			t := graphT
			id := st.newVar(t, g.x.zeroVal(t), "graphemes")
			p := Ptr{obj: id, nil_: bddFalse}
			g.setField(st, p, "remaining", s)

			return c.ret(p)
		}
	case "Graphemes.Next":
		var outs []Outcome

		rem, ok := g.field(st, c.args[0], "remaining").(Str)
		if !ok {
			break
		}

		g.first(st, rem, func(st *State, cl, rest Str, more bool) {
			g.setField(st, c.args[0], "cluster", cl)
			g.setField(st, c.args[0], "remaining", rest)

			if g.next != nil {
				g.next(st, cl, more)
			}

			outs = append(outs, Outcome{st: st, vals: []Val{Boo{bddConst(more)}}})
		})

		return true, outs
	case "Graphemes.Str":
		return c.ret(g.field(st, c.args[0], "cluster"))
	case "Graphemes.Width":
		if s, ok := str(g.field(st, c.args[0], "cluster")); ok {
			return c.ret(Num{g.width(st, s)})
		}
	case "Graphemes.Runes":
		s, ok := str(g.field(st, c.args[0], "cluster"))
		if ok {
			r := symOf("rune(" + s.key() + ")")
			return c.ret(st.newSlice(types.Typ[types.Rune], []Val{Num{linS(r)}}))
		}
	case "FirstGraphemeClusterInString", "StepString":
		s, ok := str(c.args[0])
		if !ok {
			break
		}

		var outs []Outcome

		g.first(st, s, func(st *State, cl, rest Str, more bool) {
			w := g.width(st, cl)
			if strings.HasSuffix(c.name, "StepString") {
				w = linS(symOf(freshName("boundaries")))
			}

			ns := linS(symOf(freshName("state")))
			outs = append(outs, Outcome{st: st, vals: []Val{cl, rest, Num{w}, Num{ns}}})
		})

		return true, outs
	}

	g.x.notes["call of "+c.name] = true

	return false, nil
}
