package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// constFold evaluates functions of the standard library on constants.
func (x *Interp) constFold(c *CallCtx) (bool, []Outcome) {
	var (
		ss []string
		ns []int64
	)

	for _, a := range c.args {
		if s, ok := a.(Str); ok {
			k, ok := s.constant()
			if !ok {
				return false, nil
			}

			ss = append(ss, k)

			continue
		}

		n, ok := constInt(a)
		if !ok {
			return false, nil
		}

		ns = append(ns, n)
	}

	b := func(v bool) Val { return Boo{bddConst(v)} }
	i := func(v int) Val { return Num{linC(int64(v))} }
	list := func(l []string) Val {
		var es []Val
		for _, s := range l {
			es = append(es, strC(s))
		}

		return c.st.newSlice(types.Typ[types.String], es)
	}

	if len(ss) == 2 && len(ns) == 0 {
		p, q := ss[0], ss[1]

		switch c.name {
		case "strings.Cut":
			before, after, ok := strings.Cut(p, q)
			return c.ret(strC(before), strC(after), b(ok))
		case "strings.CutPrefix":
			s, ok := strings.CutPrefix(p, q)
			return c.ret(strC(s), b(ok))
		case "strings.CutSuffix":
			s, ok := strings.CutSuffix(p, q)
			return c.ret(strC(s), b(ok))
		case "strings.TrimSuffix":
			return c.ret(strC(strings.TrimSuffix(p, q)))
		case "strings.TrimPrefix":
			return c.ret(strC(strings.TrimPrefix(p, q)))
		case "strings.Trim":
			return c.ret(strC(strings.Trim(p, q)))
		case "strings.TrimLeft":
			return c.ret(strC(strings.TrimLeft(p, q)))
		case "strings.TrimRight":
			return c.ret(strC(strings.TrimRight(p, q)))
		case "strings.HasPrefix":
			return c.ret(b(strings.HasPrefix(p, q)))
		case "strings.HasSuffix":
			return c.ret(b(strings.HasSuffix(p, q)))
		case "strings.Contains":
			return c.ret(b(strings.Contains(p, q)))
		case "strings.EqualFold":
			return c.ret(b(strings.EqualFold(p, q)))
		case "strings.Index":
			return c.ret(i(strings.Index(p, q)))
		case "strings.LastIndex":
			return c.ret(i(strings.LastIndex(p, q)))
		case "strings.Count":
			return c.ret(i(strings.Count(p, q)))
		case "strings.Split":
			return c.ret(list(strings.Split(p, q)))
		case "strings.SplitAfter":
			return c.ret(list(strings.SplitAfter(p, q)))
		}
	}

	if len(ss) == 3 {
		switch c.name {
		case "strings.ReplaceAll":
			return c.ret(strC(strings.ReplaceAll(ss[0], ss[1], ss[2])))
		case "strings.Replace":
			if len(ns) == 1 {
				return c.ret(strC(strings.Replace(ss[0], ss[1], ss[2], int(ns[0]))))
			}
		}
	}

	if len(ss) == 2 && len(ns) == 1 && c.name == "strings.SplitN" {
		return c.ret(list(strings.SplitN(ss[0], ss[1], int(ns[0]))))
	}

	errv := func(err error) Val {
		if err == nil {
			return Ifc{nil_: bddTrue}
		}

		return Ifc{nil_: bddFalse, term: freshName("error")}
	}

	if len(ss) == 1 && len(ns) == 2 {
		switch c.name {
		case "strconv.ParseInt":
			n, err := strconv.ParseInt(ss[0], int(ns[0]), int(ns[1]))
			return c.ret(Num{linC(n)}, errv(err))
		case "strconv.ParseUint":
			if n, err := strconv.ParseUint(ss[0], int(ns[0]), int(ns[1])); n < 1<<62 {
				return c.ret(Num{linC(int64(n))}, errv(err))
			}
		}
	}

	if len(ss) == 1 && len(ns) == 0 {
		switch c.name {
		case "strconv.Atoi":
			n, err := strconv.Atoi(ss[0])
			return c.ret(i(n), errv(err))
		case "strings.Fields":
			return c.ret(list(strings.Fields(ss[0])))
		case "strings.ToLower":
			return c.ret(strC(strings.ToLower(ss[0])))
		case "strings.ToUpper":
			return c.ret(strC(strings.ToUpper(ss[0])))
		case "strings.TrimSpace":
			return c.ret(strC(strings.TrimSpace(ss[0])))
		case "unicode/utf8.RuneCountInString":
			return c.ret(i(utf8.RuneCountInString(ss[0])))
		}
	}

	if len(ss) == 0 && len(ns) == 1 {
		r := rune(ns[0])

		switch c.name {
		case "unicode.IsSpace":
			return c.ret(b(unicode.IsSpace(r)))
		case "unicode.IsDigit":
			return c.ret(b(unicode.IsDigit(r)))
		case "unicode.IsLetter":
			return c.ret(b(unicode.IsLetter(r)))
		case "unicode.IsUpper":
			return c.ret(b(unicode.IsUpper(r)))
		case "unicode.IsLower":
			return c.ret(b(unicode.IsLower(r)))
		case "unicode.IsPunct":
			return c.ret(b(unicode.IsPunct(r)))
		case "unicode.IsControl":
			return c.ret(b(unicode.IsControl(r)))
		case "unicode.IsPrint":
			return c.ret(b(unicode.IsPrint(r)))
		case "unicode.ToLower":
			return c.ret(i(int(unicode.ToLower(r))))
		case "unicode.ToUpper":
			return c.ret(i(int(unicode.ToUpper(r))))
		case "unicode/utf8.RuneLen":
			return c.ret(i(utf8.RuneLen(r)))
		}
	}

	return false, nil
}

// constArg formats a constant argument with one verb and its flags.
func constArg(verb string, v Val) (string, bool) {
	switch u := unbox(v).(type) {
	case Str:
		if k, ok := u.constant(); ok {
			return fmt.Sprintf(verb, k), true
		}
	case Num, BV:
		if n, ok := constInt(u); ok {
			return fmt.Sprintf(verb, n), true
		}
	}

	return "", false
}
