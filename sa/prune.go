package main

import (
	"sort"
	"strconv"
	"strings"
)

// pruner simplifies a value by the conditions it sits under: inside the arms
// of a conditional its condition is known.
type pruner struct {
	memo  map[string]*Expr
	left  int
	enums map[*Expr][]int64 // symbols that hold one of these

	ranges bool // comparisons are decided by intervals, too
	envs   map[string]*ienv
	can    *canon // comparisons that number alike are one
	finite bool   // no value is a NaN
}

type facts map[*Expr]bool

func (f facts) with(c *Expr, truth bool) facts {
	n := facts{}
	for k, v := range f {
		n[k] = v
	}
	n.add(c, truth)
	return n
}

func (f facts) add(c *Expr, truth bool) {
	switch {
	case c.Op == "!":
		f.add(c.Args[0], !truth)
	case c.Op == "and" && truth, c.Op == "or" && !truth:
		for _, a := range c.Args {
			f.add(a, truth)
		}
	default:
		f[c] = truth
	}
}

func (p *pruner) holds(f facts, c *Expr) (bool, bool) {
	if v, ok := f[c]; ok {
		return v, true
	}
	if p.can != nil && len(c.Args) == 2 {
		n := p.can.num(c)
		if n.num {
			return n.f != 0, true
		}
		no := cInt(1).sub(n)
		for k, v := range f {
			switch m := p.can.num(k); {
			case m.eq(n):
				return v, true
			case m.eq(no):
				return !v, true
			}
		}
	}
	if c.Op == "==" {
		for i, a := range c.Args {
			if !a.isNum() {
				continue
			}
			if vs := p.enums[c.Args[1-i]]; vs != nil {
				known, in := 0, false
				for _, v := range vs {
					if v == a.I {
						in = true
					} else if t, ok := f[binE("==", 'b', constI(v), c.Args[1-i])]; ok && !t {
						known++
					}
				}
				if !in {
					return false, true
				}
				if known == len(vs)-1 {
					return true, true
				}
			}
			for k, v := range f {
				if v && k.Op == "==" {
					for j, b := range k.Args {
						if b.isNum() && k.Args[1-j] == c.Args[1-i] && b != a {
							return false, true
						}
					}
				}
			}
		}
		return p.byInterval(f, c)
	}
	if c.Op == "<" || c.Op == "<=" {
		// a < b and b <= a exclude each other
		other := "<="
		if c.Op == "<=" {
			other = "<"
		}
		for k, v := range f {
			if v && k.Op == other && k.Args[0] == c.Args[1] && k.Args[1] == c.Args[0] {
				return false, true
			}
		}
		return p.byInterval(f, c)
	}
	return false, false
}

func varBloom(e *Expr) uint64 {
	if len(e.Args) == 2 {
		for i, a := range e.Args {
			if a.isNum() {
				return e.Args[1-i].bloom
			}
		}
	}
	return e.bloom
}

func (p *pruner) prune(e *Expr, f facts) *Expr {
	if len(e.Args) == 0 || e.size < 4 && e.K != 'b' && !p.finite {
		return e
	}
	if p.left <= 0 {
		return e
	}
	g := facts{}
	var ids []string
	for k, v := range f {
		b, of := varBloom(k), e.bloom
		if p.finite {
			b, of = k.vars, e.vars
		}
		if b&of == b {
			g[k] = v
			ids = append(ids, strconv.Itoa(k.ID)+map[bool]string{true: "+", false: "-"}[v])
		}
	}
	sort.Strings(ids)
	key := strconv.Itoa(e.ID) + "|" + strings.Join(ids, ",")
	if r, ok := p.memo[key]; ok {
		return r
	}
	p.left--
	r := p.prune1(e, g)
	p.memo[key] = r
	return r
}

func (p *pruner) prune1(e *Expr, f facts) *Expr {
	if e.K == 'b' {
		if v, ok := p.holds(f, e); ok {
			if v {
				return eTrue
			}
			return eFalse
		}
	}
	switch e.Op {
	case "ite":
		c := p.prune(e.Args[0], f)
		if c == eTrue {
			return p.prune(e.Args[1], f)
		}
		if c == eFalse {
			return p.prune(e.Args[2], f)
		}
		return iteE(c, p.prune(e.Args[1], f.with(c, true)), p.prune(e.Args[2], f.with(c, false)))
	case "!":
		return notE(p.prune(e.Args[0], f))
	case "and":
		r := eTrue
		for _, a := range e.Args {
			a = p.prune(a, f)
			r = andE(r, a)
			f = f.with(a, true)
		}
		return r
	case "or":
		r := eFalse
		for _, a := range e.Args {
			a = p.prune(a, f)
			r = orE(r, a)
			f = f.with(a, false)
		}
		return r
	}
	args := make([]*Expr, len(e.Args))
	same := true
	for i, a := range e.Args {
		args[i] = p.prune(a, f)
		same = same && args[i] == a
	}
	if r := p.pick(f, e, args); r != nil {
		return r
	}
	if r := p.remainder(f, e, args); r != nil {
		return r
	}
	if r := p.magnitude(f, e, args); r != nil {
		return r
	}
	if p.ranges {
		if r := p.unscale(f, mk(e.Op, e.Str, e.K, args...)); r != nil {
			return r
		}
	}
	if same {
		return e
	}
	if e.Op == "==" && args[0].K == 'o' {
		return binE("==", e.K, args[0], args[1])
	}
	return mk(e.Op, e.Str, e.K, args...)
}

func newPruner() *pruner {
	return &pruner{memo: map[string]*Expr{}, left: 30000, envs: map[string]*ienv{}}
}
