package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Texts. A string is a constant, or "cat": constants and the texts of numbers
// one after another. The text of a number ("numtext") is made of digits, at
// most a sign and a point, and is not empty; numbers shown are finite.

func catE(ps ...*Expr) *Expr {
	var out []*Expr
	for _, p := range ps {
		qs := []*Expr{p}
		if p.Op == "cat" {
			qs = p.Args
		}
		for _, q := range qs {
			if t, ok := constStr(q); ok {
				if t == "" {
					continue
				}
				if n := len(out); n > 0 {
					if u, ok := constStr(out[n-1]); ok {
						out[n-1] = strE(u + t)
						continue
					}
				}
			}
			out = append(out, q)
		}
	}
	switch {
	case len(out) == 0:
		return strE("")
	case len(out) == 1 && out[0].isConst():
		return out[0]
	}
	return mk("cat", "", 's', out...)
}

// pieces of a text of known form.
func pieces(e *Expr) ([]*Expr, bool) {
	if e.isConst() && e.K == 's' {
		if t, ok := constStr(e); ok && t == "" {
			return nil, true
		}
		return []*Expr{e}, true
	}
	if e.Op == "numtext" {
		return []*Expr{e}, true
	}
	if e.Op != "cat" {
		return nil, false
	}
	for _, p := range e.Args {
		if !p.isConst() && p.Op != "numtext" {
			return nil, false
		}
	}
	return e.Args, true
}

func numeral(r rune) bool { return r >= '0' && r <= '9' || r == '-' || r == '.' }

func overArms(e *Expr, f func(*Expr) *Expr) *Expr {
	if e.Op == "ite" {
		a, b := overArms(e.Args[1], f), overArms(e.Args[2], f)
		if a == nil || b == nil {
			return nil
		}
		return iteE(e.Args[0], a, b)
	}
	return f(e)
}

// overAll goes over the arms of several conditionals, those on the same
// condition together.
func overAll(es []*Expr, depth int, f func(es []*Expr) *Expr) *Expr {
	for _, e := range es {
		if e.Op != "ite" || depth >= 6 {
			continue
		}
		side := func(k int) *Expr {
			out := append([]*Expr(nil), es...)
			for i, a := range out {
				if a.Op == "ite" && a.Args[0] == e.Args[0] {
					out[i] = a.Args[k]
				}
			}
			return overAll(out, depth+1, f)
		}
		a, b := side(1), side(2)
		if a == nil || b == nil {
			return nil
		}
		return iteE(e.Args[0], a, b)
	}
	return f(es)
}

// affix says whether a text of known form begins (or ends) with t, and what is
// left without it.
func affix(ps []*Expr, t string, front bool) (has, known bool, rest *Expr) {
	whole := catE(ps...)
	if t == "" {
		return true, true, whole
	}
	if len(ps) == 0 {
		return false, true, whole
	}
	i := len(ps) - 1
	if front {
		i = 0
	}
	c, isConst := constStr(ps[i])
	if !isConst {
		r, _ := utf8.DecodeLastRuneInString(t)
		if front {
			r, _ = utf8.DecodeRuneInString(t)
		}
		return false, !numeral(r), whole
	}
	if len(c) >= len(t) || len(ps) == 1 {
		qs := append([]*Expr(nil), ps...)
		if front && strings.HasPrefix(c, t) {
			qs[i] = strE(c[len(t):])
			return true, true, catE(qs...)
		}
		if !front && strings.HasSuffix(c, t) {
			qs[i] = strE(c[:len(c)-len(t)])
			return true, true, catE(qs...)
		}
		return false, true, whole
	}
	if front {
		if !strings.HasPrefix(t, c) {
			return false, true, whole
		}
		r, _ := utf8.DecodeRuneInString(t[len(c):])
		return false, !numeral(r), whole
	}
	if !strings.HasSuffix(t, c) {
		return false, true, whole
	}
	r, _ := utf8.DecodeLastRuneInString(t[:len(t)-len(c)])
	return false, !numeral(r), whole
}

func mapConsts(ps []*Expr, f func(string) string) *Expr {
	var out []*Expr
	for _, p := range ps {
		if t, ok := constStr(p); ok {
			p = strE(f(t))
		}
		out = append(out, p)
	}
	return catE(out...)
}

func trimEnds(ps []*Expr) *Expr { return trimSet(ps, " \t\r\n", true, true) }

func trimSet(ps []*Expr, set string, front, back bool) *Expr {
	qs := append([]*Expr(nil), ps...)
	for len(qs) > 0 && front {
		t, ok := constStr(qs[0])
		if !ok {
			break
		}
		if t = strings.TrimLeft(t, set); t != "" {
			qs[0] = strE(t)
			break
		}
		qs = qs[1:]
	}
	for n := len(qs); n > 0 && back; n = len(qs) {
		t, ok := constStr(qs[n-1])
		if !ok {
			break
		}
		if t = strings.TrimRight(t, set); t != "" {
			qs[n-1] = strE(t)
			break
		}
		qs = qs[:n-1]
	}
	return catE(qs...)
}

// sameText decides equality of a text of known form and a constant.
func sameText(ps []*Expr, t string) *Expr {
	if len(ps) == 0 {
		return constB(t == "")
	}
	if c, ok := constStr(ps[0]); ok && len(ps) == 1 {
		return constB(c == t)
	}
	// some piece is a number: the constant must hold what the others hold, in
	// order, and a digit for the number
	for _, p := range ps {
		if c, ok := constStr(p); ok && !strings.Contains(t, c) {
			return eFalse
		}
	}
	if !strings.ContainsAny(t, "0123456789") {
		return eFalse
	}
	return nil
}

func rndE(format string, x *Expr) *Expr {
	if x.isNum() {
		if v, err := strconv.ParseFloat(fmt.Sprintf(format, x.F), 64); err == nil {
			return constF(v, 'd')
		}
	}
	return mk("rnd", format, 'd', x)
}

// sprintf takes a format apart; nil when it is not understood.
func sprintf(format string, args []*Expr) *Expr {
	var out []*Expr
	n := 0
	for len(format) > 0 {
		i := strings.IndexByte(format, '%')
		if i < 0 {
			out = append(out, strE(format))
			break
		}
		out = append(out, strE(format[:i]))
		format = format[i:]
		j := 1
		for j < len(format) && strings.IndexByte("0123456789.+-# ", format[j]) >= 0 {
			j++
		}
		if j == len(format) {
			return nil
		}
		verb := format[:j+1]
		format = format[j+1:]
		if verb == "%%" {
			out = append(out, strE("%"))
			continue
		}
		if n >= len(args) || args[n].Op != "iface" {
			return nil
		}
		v := args[n].Args[0]
		typ := args[n].Str
		n++
		switch c := verb[len(verb)-1]; {
		case (c == 's' || c == 'v') && len(verb) == 2 && v.K == 's' && typ == "string":
			out = append(out, v)
		case (c == 'd' || c == 'v') && len(verb) == 2 && v.K == 'i':
			if v.isNum() {
				out = append(out, strE(strconv.FormatInt(v.I, 10)))
			} else {
				out = append(out, mk("numtext", "%d", 's', v))
			}
		case c == 'f' && (len(verb) == 2 || len(verb) == 4 && verb[1] == '.') && (v.K == 'd' || v.K == 'f'):
			if v.isNum() {
				out = append(out, strE(fmt.Sprintf(verb, v.F)))
			} else {
				out = append(out, mk("numtext", verb, 's', v))
			}
		default:
			return nil
		}
	}
	if n != len(args) {
		return nil
	}
	for _, p := range out {
		if p.Op == "ite" {
			return nil
		}
	}
	return catE(out...)
}

// iteIn finds a conditional among texts that are put together.
func iteIn(es []*Expr) *Expr {
	for _, e := range es {
		if e.Op == "iface" && e.Args[0].Op == "ite" && e.Args[0].K == 's' {
			return e.Args[0].Args[0]
		}
	}
	return nil
}

func sprintfE(format string, args []*Expr, depth int) *Expr {
	if c := iteIn(args); c != nil && depth < 6 {
		side := func(k int) []*Expr {
			out := append([]*Expr(nil), args...)
			for i, a := range out {
				if a.Op == "iface" && a.Args[0].Op == "ite" && a.Args[0].Args[0] == c {
					out[i] = mk("iface", a.Str, 'o', a.Args[0].Args[k])
				}
			}
			return out
		}
		a, b := sprintfE(format, side(1), depth+1), sprintfE(format, side(2), depth+1)
		if a == nil || b == nil {
			return nil
		}
		return iteE(c, a, b)
	}
	return sprintf(format, args)
}

func errE(what string, of *Expr) *Expr { return mk("call", what, 'o', of) }

func tupleE(es ...*Expr) *Expr { return mk("struct", "tuple", 'o', es...) }

// leading reads a number at the front of a text of known form.
func leading(ps []*Expr, whole, integer bool) (*Expr, bool) {
	if len(ps) == 0 {
		return nil, true
	}
	if t, ok := constStr(ps[0]); ok {
		if len(ps) > 1 {
			// a constant before a number
			if strings.TrimLeft(t, "0123456789.+-eExXpP_infINFatyATYn ") != "" {
				return nil, true
			}
			return nil, false
		}
		if !whole {
			t = strings.TrimLeft(t, " ")
			i := 0
			for i < len(t) && (numeral(rune(t[i])) || t[i] == '+') {
				i++
			}
			if t[i:] != "" && strings.ContainsAny(t[i:i+1], "eEpPxX_") {
				return nil, false
			}
			t = t[:i]
		}
		if integer {
			n, err := strconv.Atoi(t)
			if err != nil {
				return nil, true
			}
			return constI(int64(n)), true
		}
		v, err := strconv.ParseFloat(t, 64)
		if err != nil {
			return nil, true
		}
		return constF(v, 'd'), true
	}
	if len(ps) > 1 {
		t, ok := constStr(ps[1])
		if !ok {
			return nil, false
		}
		r, _ := utf8.DecodeRuneInString(t)
		if numeral(r) || strings.ContainsRune("+eEpPxX_", r) {
			return nil, false
		}
		if whole {
			return nil, true
		}
	}
	n := ps[0]
	switch {
	case n.Str == "%d" && integer:
		return n.Args[0], true
	case n.Str == "%d":
		return convE(n.Args[0], "float64", 'd'), true
	case integer:
		return nil, n.Str != "%.0f"
	}
	return rndE(n.Str, n.Args[0]), true
}

// strModel evaluates library functions on texts; nil when the text is not of
// known form.
func (g *symEng) strModel(name string, args []*Expr, st *sstate, in ssa.Instruction) *Expr {
	if name != "fmt.Sscanf" && name != "fmt.Sprintf" {
		return overAll(args, 0, func(as []*Expr) *Expr { return g.strModel1(name, as, st, in) })
	}
	return g.strModel1(name, args, st, in)
}

func (g *symEng) strModel1(name string, args []*Expr, st *sstate, in ssa.Instruction) *Expr {
	one := func(f func(ps []*Expr) *Expr) *Expr {
		return overArms(args[0], func(e *Expr) *Expr {
			ps, ok := pieces(e)
			if !ok {
				return nil
			}
			return f(ps)
		})
	}
	konst := func(i int) (string, bool) { return constStr(args[i]) }
	if r := constText(name, args); r != nil {
		return r
	}
	switch name {
	case "strings.ReplaceAll":
		old, ok := konst(1)
		new, ok2 := konst(2)
		if !ok || !ok2 || old == "" || strings.ContainsFunc(old, numeral) {
			return nil
		}
		return one(func(ps []*Expr) *Expr {
			return mapConsts(ps, func(t string) string { return strings.ReplaceAll(t, old, new) })
		})
	case "fmt.Sprintf":
		if f, ok := konst(0); ok && args[1].Op == "list" {
			return sprintfE(f, args[1].Args, 0)
		}
	case "strings.TrimSpace":
		return one(trimEnds)
	case "strings.ToLower":
		return one(func(ps []*Expr) *Expr { return mapConsts(ps, strings.ToLower) })
	case "strings.ToUpper":
		return one(func(ps []*Expr) *Expr { return mapConsts(ps, strings.ToUpper) })
	case "strings.HasSuffix", "strings.HasPrefix", "strings.TrimSuffix", "strings.TrimPrefix":
		t, ok := konst(1)
		if !ok {
			return nil
		}
		return one(func(ps []*Expr) *Expr {
			has, known, rest := affix(ps, t, strings.HasSuffix(name, "Prefix"))
			switch {
			case !known:
				return nil
			case strings.HasPrefix(name, "strings.Has"):
				return constB(has)
			}
			return rest
		})
	case "strings.CutSuffix", "strings.CutPrefix":
		t, ok := konst(1)
		if !ok {
			return nil
		}
		return one(func(ps []*Expr) *Expr {
			has, known, rest := affix(ps, t, name == "strings.CutPrefix")
			if !known {
				return nil
			}
			return tupleE(rest, constB(has))
		})
	case "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		t, ok := konst(1)
		if !ok || strings.ContainsFunc(t, numeral) {
			return nil
		}
		return one(func(ps []*Expr) *Expr {
			return trimSet(ps, t, name != "strings.TrimRight", name != "strings.TrimLeft")
		})
	case "strconv.FormatFloat":
		if f := args[1]; f.isNum() && f.I == 'f' && args[2].isNum() && args[3].isNum() && args[3].I == 64 && args[2].I >= 0 {
			if args[0].isNum() {
				return strE(strconv.FormatFloat(args[0].F, 'f', int(args[2].I), 64))
			}
			return mk("cat", "", 's', mk("numtext", fmt.Sprintf("%%.%df", args[2].I), 's', args[0]))
		}
	case "strings.Contains":
		t, ok := konst(1)
		if !ok {
			return nil
		}
		return one(func(ps []*Expr) *Expr {
			for _, p := range ps {
				if c, ok := constStr(p); ok && strings.Contains(c, t) {
					return eTrue
				}
			}
			for _, r := range t {
				if numeral(r) && len(ps) > 1 || numeral(r) && len(ps) == 1 && !ps[0].isConst() {
					return nil
				}
			}
			return eFalse
		})
	case "strings.EqualFold":
		if args[0] == args[1] {
			return eTrue
		}
		fold := func(e *Expr) *Expr {
			ps, ok := pieces(e)
			if !ok {
				return nil
			}
			return mapConsts(ps, strings.ToLower)
		}
		return overArms(args[0], func(x *Expr) *Expr {
			return overArms(args[1], func(y *Expr) *Expr {
				a, b := fold(x), fold(y)
				if a == nil || b == nil {
					return nil
				}
				return textEq(a, b)
			})
		})
	case "strconv.ParseFloat", "strconv.Atoi":
		return one(func(ps []*Expr) *Expr {
			v, known := leading(ps, true, name == "strconv.Atoi")
			switch {
			case !known:
				return nil
			case v == nil:
				z := constF(0, 'd')
				if name == "strconv.Atoi" {
					z = constI(0)
				}
				return tupleE(z, errE("errors.New", catE(ps...)))
			}
			return tupleE(v, eNil)
		})
	case "strconv.Itoa":
		if args[0].isNum() {
			return strE(strconv.FormatInt(args[0].I, 10))
		}
		return mk("cat", "", 's', mk("numtext", "%d", 's', args[0]))
	case "fmt.Sscanf":
		f, ok := konst(1)
		if !ok || f != "%f" && f != "%g" || args[2].Op != "list" || len(args[2].Args) != 1 {
			return nil
		}
		p := args[2].Args[0]
		if p.Op != "iface" || p.Str != "*float64" {
			return nil
		}
		T := typeFloat64
		old := g.load(st, p.Args[0], T)
		r := one(func(ps []*Expr) *Expr {
			v, known := leading(ps, false, false)
			switch {
			case !known:
				return nil
			case v == nil:
				return tupleE(constI(0), errE("errors.New", catE(ps...)), old)
			}
			return tupleE(constI(1), eNil, v)
		})
		if r == nil {
			return nil
		}
		g.store(st, p.Args[0], extractE(r, 2, 'd'), T)
		return tupleE(extractE(r, 0, 'i'), extractE(r, 1, 'o'))
	}
	return nil
}

// textEq is equality of two texts; nil when their form does not decide it.
func textEq(a, b *Expr) *Expr {
	if a == b {
		return eTrue
	}
	ps, ok := pieces(a)
	qs, ok2 := pieces(b)
	if !ok || !ok2 {
		return nil
	}
	if t, ok := constStr(catE(qs...)); ok {
		return sameText(ps, t)
	}
	if t, ok := constStr(catE(ps...)); ok {
		return sameText(qs, t)
	}
	return nil
}

var typeFloat64 = types.Typ[types.Float64]

// constText evaluates functions of constant texts.
func constText(name string, args []*Expr) *Expr {
	var ts []string
	for _, a := range args {
		if t, ok := constStr(a); ok {
			ts = append(ts, t)
		} else if !a.isNum() {
			return nil
		}
	}
	switch f := map[string]func(s, t string) int{"Index": strings.Index, "IndexAny": strings.IndexAny, "LastIndex": strings.LastIndex,
		"LastIndexAny": strings.LastIndexAny, "Count": strings.Count, "Compare": strings.Compare}[strings.TrimPrefix(name, "strings.")]; {
	case f != nil && len(ts) == 2:
		return constI(int64(f(ts[0], ts[1])))
	case name == "strings.ContainsAny" && len(ts) == 2:
		return constB(strings.ContainsAny(ts[0], ts[1]))
	case name == "strings.IndexByte" && len(ts) == 1 && len(args) == 2:
		return constI(int64(strings.IndexByte(ts[0], byte(args[1].I))))
	case name == "strings.IndexRune" && len(ts) == 1 && len(args) == 2:
		return constI(int64(strings.IndexRune(ts[0], rune(args[1].I))))
	case name == "strings.ReplaceAll" && len(ts) == 3:
		return strE(strings.ReplaceAll(ts[0], ts[1], ts[2]))
	case name == "strings.Repeat" && len(ts) == 1 && len(args) == 2 && args[1].I >= 0 && args[1].I < 100:
		return strE(strings.Repeat(ts[0], int(args[1].I)))
	case name == "strings.Title" && len(ts) == 1:
		return strE(strings.Title(ts[0]))
	}
	return nil
}
