package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("L03", checkL03)
}

// closedKinds are the values that a type is declared to have: its constants, or
// the types that implement an interface that only this repository can.
type closedKind struct {
	typ   *types.Named
	names []string          // of the kinds
	of    map[string]string // constant or type to name
}

func closedKinds(p *Prog) map[string]*closedKind {
	out := map[string]*closedKind{}
	bits := map[string]bool{}

	// sets of bits are not choices
	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			if b, ok := in.(*ssa.BinOp); ok {
				switch b.Op {
				case token.OR, token.AND, token.AND_NOT, token.SHL, token.XOR, token.MUL, token.QUO:
					bits[b.Type().String()] = true
				}
			}
		})
	}

	for _, pkg := range p.spkgs {
		if !isRepoPath(pkg.Pkg.Path()) {
			continue
		}

		scope := pkg.Pkg.Scope()

		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}

			named, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}

			k := &closedKind{typ: named, of: map[string]string{}}

			switch u := named.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsInteger == 0 || bits[named.String()] {
					continue
				}

				for _, m := range scope.Names() {
					c, ok := scope.Lookup(m).(*types.Const)
					if !ok || !types.Identical(c.Type(), named) {
						continue
					}

					v := c.Val().ExactString()
					if k.of[v] == "" {
						k.names = append(k.names, m)
						k.of[v] = m
					}
				}
			case *types.Interface:
				closed := false

				for i := 0; i < u.NumMethods(); i++ {
					closed = closed || !u.Method(i).Exported()
				}

				if !closed {
					continue
				}

				for _, m := range scope.Names() {
					t, ok := scope.Lookup(m).(*types.TypeName)
					if !ok || t.IsAlias() || types.IsInterface(t.Type()) || !types.Implements(t.Type(), u) {
						continue
					}

					k.names = append(k.names, m)
					k.of[t.Type().String()] = m
				}
			}

			if len(k.names) > 1 {
				out[named.String()] = k
			}
		}
	}

	return out
}

// valueKey identifies values that are the same each time they are computed.
func valueKey(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*" + valueKey(v.X)
		}
	case *ssa.FieldAddr:
		return valueKey(v.X) + fmt.Sprintf(".%d", v.Field)
	case *ssa.Field:
		return valueKey(v.X) + fmt.Sprintf(".%d", v.Field)
	case *ssa.ChangeType:
		return valueKey(v.X)
	case *ssa.Alloc:
		// a copy of something
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				return "&" + valueKey(s.Val)
			}
		}
	}

	return v.Name()
}

// kindTest is a branch on one kind.
type kindTest struct {
	block *ssa.BasicBlock
	kind  string
	yes   int // successor taken for the kind
	pos   token.Pos
}

type kindGroup struct {
	fn      *ssa.Function
	key     string
	subject ssa.Value
	kind    *closedKind
	pos     token.Pos
	tests   []kindTest
	by      map[*ssa.BasicBlock]kindTest
}

func kindGroups(p *Prog) []*kindGroup {
	kinds := closedKinds(p)

	var out []*kindGroup

	for _, f := range p.all {
		groups := map[string]*kindGroup{}

		var order []string

		for _, b := range f.Blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}

			var (
				subject ssa.Value
				val     string
				yes     int
				kind    *closedKind
				pos     token.Pos
			)

			switch c := iff.Cond.(type) {
			case *ssa.BinOp:
				if c.Op != token.EQL && c.Op != token.NEQ {
					continue
				}

				k, ok := c.Y.(*ssa.Const)
				subject = c.X

				if !ok {
					k, ok = c.X.(*ssa.Const)
					subject = c.Y
				}

				if !ok || k.Value == nil {
					continue
				}

				kind = kinds[subject.Type().String()]
				val = constKey(k.Value)
				pos = c.Pos()

				if c.Op == token.NEQ {
					yes = 1
				}
			case *ssa.Extract:
				ta, ok := c.Tuple.(*ssa.TypeAssert)
				if !ok || !ta.CommaOk || c.Index != 1 {
					continue
				}

				subject, val, kind, pos = ta.X, ta.AssertedType.String(), kinds[ta.X.Type().String()], ta.Pos()
			default:
				continue
			}

			if kind == nil || kind.of[val] == "" {
				continue
			}

			key := kind.typ.String() + " " + valueKey(subject)

			g := groups[key]
			if g == nil {
				g = &kindGroup{fn: f, key: valueKey(subject), subject: subject, kind: kind, pos: pos, by: map[*ssa.BasicBlock]kindTest{}}
				groups[key] = g
				order = append(order, key)
			}

			t := kindTest{b, kind.of[val], yes, pos}
			g.tests = append(g.tests, t)
			g.by[b] = t
		}

		for _, k := range order {
			out = append(out, groups[k])
		}
	}

	return out
}

func constKey(v constant.Value) string { return v.ExactString() }

// chain is a run of tests of one value, each made when the ones before failed.
type chain struct {
	g     *kindGroup
	tests []kindTest
	head  *ssa.BasicBlock
	last  *ssa.BasicBlock // the last test
	other *ssa.BasicBlock // where kinds that are not tested go
}

func (g *kindGroup) chains() []*chain {
	inner := map[*ssa.BasicBlock]bool{}

	for _, t := range g.tests {
		n := t.block.Succs[1-t.yes]
		if _, ok := g.by[n]; ok && onlyTests(n) && n != t.block {
			inner[n] = true
		}
	}

	var out []*chain

	for _, t := range g.tests {
		if inner[t.block] {
			continue
		}

		c := &chain{g: g, head: t.block}
		seen := map[*ssa.BasicBlock]bool{}

		for b := t.block; ; {
			u := g.by[b]
			seen[b] = true
			c.tests = append(c.tests, u)
			c.last, c.other = b, b.Succs[1-u.yes]

			if _, ok := g.by[c.other]; !ok || !onlyTests(c.other) || seen[c.other] {
				break
			}

			b = c.other
		}

		out = append(out, c)
	}

	return out
}

// onlyTests reports that a block does nothing but compare.
func onlyTests(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.BinOp, *ssa.If, *ssa.TypeAssert, *ssa.Extract, *ssa.UnOp, *ssa.FieldAddr, *ssa.Field, *ssa.DebugRef:
		default:
			return false
		}
	}

	return true
}

// arms are the blocks that the tested kinds lead to.
func (c *chain) arms() []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, t := range c.tests {
		out = append(out, t.block.Succs[t.yes])
	}

	return out
}

// armBlocks are those that are reached from the arms only.
func (c *chain) armBlocks(stop *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}

	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] || b == c.head || b == stop {
			return
		}

		seen[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
	}

	for _, a := range c.arms() {
		rec(a)
	}

	return seen
}

// joins reports that the kinds that are not tested go where the arms end up.
func (c *chain) joins() bool {
	blocks := c.armBlocks(nil)
	return blocks[c.other]
}

// preset reports that what the arms determine has been given a value before, for
// the kinds that are not tested.
func (c *chain) preset() bool {
	blocks := c.armBlocks(c.other)
	n, given := 0, 0
	edge := slices.Index(c.other.Preds, c.last)

	for _, in := range c.other.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}

		v := phi.Edges[edge]
		same := true

		for i, e := range phi.Edges {
			if i != edge && blocks[c.other.Preds[i]] && e != v {
				same = false
			}
		}

		if same {
			continue
		}

		n++

		if k, ok := v.(*ssa.Const); ok && zeroConst(k) {
			continue
		}

		derived := false

		for i, e := range phi.Edges {
			if i != edge && blocks[c.other.Preds[i]] && uses(e, v, blocks, map[ssa.Value]bool{}) {
				derived = true
			}
		}

		if !derived {
			given++
		}
	}

	// variables in memory
	for b := range blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}

			root := allocOf(s.Addr)
			if root == nil || blocks[root.Block()] {
				continue
			}

			n++

			if setBefore(root, c.head) {
				given++
			}
		}
	}

	return n > 0 && given == n
}

func allocOf(v ssa.Value) *ssa.Alloc {
	for {
		switch u := v.(type) {
		case *ssa.Alloc:
			return u
		case *ssa.FieldAddr:
			v = u.X
		case *ssa.IndexAddr:
			v = u.X
		default:
			return nil
		}
	}
}

func setBefore(a *ssa.Alloc, b *ssa.BasicBlock) bool {
	found := false

	eachInstr(a.Parent(), func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && allocOf(s.Addr) == a && in.Block().Dominates(b) {
			if k, ok := s.Val.(*ssa.Const); !ok || !zeroConst(k) {
				found = true
			}
		}
	})

	return found
}

func zeroConst(k *ssa.Const) bool {
	if k.Value == nil {
		return true
	}

	switch k.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(k.Value)
	case constant.String:
		return constant.StringVal(k.Value) == ""
	case constant.Int, constant.Float:
		return constant.Sign(k.Value) == 0
	}

	return false
}

// uses reports that a value computed in some blocks depends on another.
func uses(v, on ssa.Value, blocks map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if v == on {
		return true
	}

	in, ok := v.(ssa.Instruction)
	if !ok || seen[v] || !blocks[in.Block()] {
		return false
	}

	seen[v] = true

	for _, op := range in.Operands(nil) {
		if *op != nil && uses(*op, on, blocks, seen) {
			return true
		}
	}

	return false
}

// fails reports what the code for kinds that are not tested amounts to when it
// is not one: it panics, or gives nothing.
func (c *chain) fails() (panics, nothing bool) {
	b := c.other

	for n := 0; n < 10; n++ {
		switch in := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Panic:
			return true, false
		case *ssa.Jump:
			if len(b.Instrs) == 1 && len(b.Succs[0].Preds) == 1 {
				b = b.Succs[0]
				continue
			}
		case *ssa.Return:
			if b != c.other && len(b.Preds) > 1 || len(in.Results) == 0 {
				return false, false
			}

			for _, r := range in.Results {
				if !emptyValue(r) {
					return false, false
				}
			}

			return false, len(b.Instrs) <= 4
		}

		return false, false
	}

	return false, false
}

// emptyValue reports that a value is the zero value of its type.
func emptyValue(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return zeroConst(v)
	case *ssa.UnOp:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL {
			return false
		}

		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if k, ok := r.Val.(*ssa.Const); !ok || !zeroConst(k) {
					return false
				}
			default:
				return false
			}
		}

		return true
	}

	return false
}

// reaches reports that a kind of the group's value may be what it is at a block.
func (g *kindGroup) reaches(to *ssa.BasicBlock, kind string) bool {
	seen := map[*ssa.BasicBlock]bool{}

	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}

		if seen[b] {
			return false
		}

		seen[b] = true

		if t, ok := g.by[b]; ok {
			if t.kind == kind {
				return rec(b.Succs[t.yes])
			}

			return rec(b.Succs[1-t.yes])
		}

		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}

		return false
	}

	return rec(g.fn.Blocks[0])
}

// comes reports that a function may be called with a kind for its value.
func comes(p *Prog, groups map[string]*kindGroup, g *kindGroup, kind string) bool {
	prm, ok := g.subject.(*ssa.Parameter)
	if !ok || g.fn.Object() == nil || g.fn.Object().Exported() {
		return true
	}

	at := slices.Index(g.fn.Params, prm)
	called, may := false, false

	for _, f := range p.all {
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op != ssa.Value(g.fn) {
					continue
				}

				call, ok := in.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() != g.fn {
					may = true
					continue
				}

				called = true
				arg := call.Common().Args[at]

				if k, ok := arg.(*ssa.Const); ok && k.Value != nil {
					may = may || g.kind.of[constKey(k.Value)] == kind
					continue
				}

				h := groups[fname(f)+" "+g.kind.typ.String()+" "+valueKey(arg)]
				may = may || h == nil || h.reaches(in.Block(), kind)
			}
		})
	}

	return may || !called
}

func checkL03(c *Check) {
	p := c.prog("linux")
	all := kindGroups(p)
	groups := map[string]*kindGroup{}

	for _, g := range all {
		groups[fname(g.fn)+" "+g.kind.typ.String()+" "+g.key] = g
	}

	done := map[string]int{}

	// the kind that stands for no choice is singled out to be replaced
	replaced := map[string]bool{}

	for _, g := range all {
		for _, ch := range g.chains() {
			if len(ch.tests) == 1 && g.kind.zero(ch.tests[0].kind) && len(g.kind.names) > 2 {
				replaced[g.kind.typ.String()+ch.tests[0].kind] = true
			}
		}
	}

	for _, g := range all {
		for _, ch := range g.chains() {
			seen := map[string]bool{}
			for _, t := range ch.tests {
				seen[t.kind] = true
			}

			// the kinds that have not been dealt with before
			var missing []string

			total := len(seen)

			for _, n := range g.kind.names {
				if !seen[n] && g.reaches(ch.head, n) && comes(p, groups, g, n) {
					missing = append(missing, n)
					total++
				}
			}

			// less than half: singling some out
			if 2*len(seen) < total || total < 2 || len(seen) == 1 && len(g.kind.names) > 2 {
				continue
			}

			bad := ""

			if len(missing) > 0 {
				panics, nothing := ch.fails()

				var odd []string

				for _, n := range missing {
					if !replaced[g.kind.typ.String()+n] {
						odd = append(odd, n)
					}
				}

				switch {
				case ch.joins():
					if !ch.preset() {
						bad = "nothing is done for " + strings.Join(missing, ", ")
					}
				case panics && len(odd) > 0:
					bad = strings.Join(odd, ", ") + " is not expected"
				case nothing && 2*len(seen) > total && len(odd) > 0:
					bad = "nothing is given for " + strings.Join(odd, ", ")
				}
			}

			construct := g.kind.typ.Obj().Name() + " in " + fname(g.fn)
			done[construct]++

			if n := done[construct]; n > 1 {
				construct += fmt.Sprintf(" (%d)", n)
			}

			c.want(bad == "", "kinds", construct, p.pos(ch.tests[0].pos), bad)
		}
	}

	c.atLeast("kinds", 10)
}

// zero reports that a kind is the zero value of its type.
func (k *closedKind) zero(name string) bool { return k.of["0"] == name }
