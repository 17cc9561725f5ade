package main

import (
	"fmt"
	"os"
)

var dbgFacts = os.Getenv("VSA_FACTS") != ""

// Cases by facts: two values are compared under every truth assignment of the
// comparisons they hold, each pruned by the facts of the case and the bounds
// these give, until they number alike.

type factSplit struct {
	c    *canon
	p    *pruner
	fuel int
	rep  map[[2]uint64]*Expr // what is written for a number
	memo map[*Expr]*Expr
}

// atomIn is a comparison inside e that turns on nothing undecided itself, or
// the sign an absolute value, maximum or minimum turns on.
func atomIn(e *Expr, seen map[*Expr]bool) *Expr {
	if seen[e] {
		return nil
	}
	seen[e] = true
	for _, a := range e.Args {
		if r := atomIn(a, seen); r != nil {
			return r
		}
	}
	num := func(k byte) bool { return k == 'f' || k == 'd' || k == 'i' }
	switch e.Op {
	case "<", "<=", "==":
		if len(e.Args) == 2 && num(e.Args[0].K) && e.K != 0 {
			return e
		}
	case "max", "min":
		if len(e.Args) == 2 && num(e.K) {
			return binE("<", 'b', e.Args[0], e.Args[1])
		}
	case "call":
		if e.Str == "math.Abs" {
			return binE("<", 'b', e.Args[0], constF(0, e.Args[0].K))
		}
	}
	return nil
}

func (s *factSplit) same(x, y *Expr, f facts) bool {
	x, y = s.write(s.p.prune(x, f)), s.write(s.p.prune(y, f))
	if x == y || s.c.num(x).eq(s.c.num(y)) {
		return true
	}
	if s.fuel--; s.fuel < 0 || len(f) > 40 {
		return false
	}
	seen := map[*Expr]bool{}
	a := atomIn(x, seen)
	if a == nil {
		a = atomIn(y, seen)
	}
	if a == nil || a.isConst() {
		r := sameByCases(s.c, x, y)
		if !r && dbgFacts {
			for a, v := range f {
				fmt.Println("FACT", v, a.render(8))
			}
			fmt.Println("FACTS leaf", x.render(12), "|", y.render(12))
		}
		return r
	}
	if _, ok := f[a]; ok {
		if dbgFacts {
			fmt.Println("FACTS stuck", a.render(12), x.render(12), "|", y.render(12))
		}
		return false // known, and not taken out
	}
	if v, ok := s.p.holds(f, a); ok {
		return s.same(x, y, f.with(a, v))
	}
	no := f.with(a, false)
	switch a.Op { // of two numbers
	case "<":
		no.add(binE("<=", 'b', a.Args[1], a.Args[0]), true)
	case "<=":
		no.add(binE("<", 'b', a.Args[1], a.Args[0]), true)
	}
	return s.same(x, y, f.with(a, true)) && s.same(x, y, no)
}

// write writes the parts of e that number alike with one met before as that
// one, so that what is known about it is known about all.
func (s *factSplit) write(e *Expr) *Expr {
	if r := s.memo[e]; r != nil {
		return r
	}
	r := e
	if len(e.Args) > 0 {
		args := make([]*Expr, len(e.Args))
		same := true
		for i, a := range e.Args {
			args[i] = s.write(a)
			same = same && args[i] == a
		}
		if !same {
			r = mk(e.Op, e.Str, e.K, args...)
		}
	}
	if (r.K == 'f' || r.K == 'd') && !r.bound && len(r.Args) > 0 {
		k := vkey(s.c.num(r))
		if o := s.rep[k]; o == nil {
			s.rep[k] = r
		} else if o.K == r.K {
			r = o
		}
	}
	s.memo[e], s.memo[r] = r, r
	return r
}

func sameByFacts(c *canon, p *pruner, x, y *Expr, f facts) (same bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(symBudget); !ok {
				panic(r)
			}
			same = false
		}
	}()
	q := newPruner()
	q.enums, q.ranges, q.can, q.finite = p.enums, true, c, true
	q.left = 200000
	return (&factSplit{c, q, 300, map[[2]uint64]*Expr{}, map[*Expr]*Expr{}}).same(x, y, f)
}
