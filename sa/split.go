package main

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
)

// Case splitting: two values that number differently are compared again under
// every truth assignment of the comparisons they turn on. An assignment whose
// inequalities add up to a contradiction is left out.

type splitFact struct {
	key    [2]uint64
	e      cval // e <= 0, or e < 0
	strict bool
	eq     int // 1: e == 0, -1: e != 0
	prod   bool
}

type splitter struct {
	assigned map[[2]uint64]bool
	facts    []splitFact
	pending  []splitAtom
	evals    int
	nodes    int
	outer    bool // outermost comparisons first
	products bool // facts are multiplied by facts of known sign
}

type splitAtom struct {
	key  [2]uint64
	kind byte // 'l' d<0, 'L' d<=0 over the integers, 'e' d==0, '?' anything
	d    cval
}

func vkey(v cval) [2]uint64 { return [2]uint64{v.a, v.b} }

// atom gives the truth value of a comparison, when the case decides it.
func (s *splitter) atom(kind byte, d, h cval) cval {
	k := vkey(h)
	if t, ok := s.assigned[k]; ok {
		return cBool(t)
	}
	if t, ok := s.implied(kind, d); ok {
		s.assigned[k] = t
		return cBool(t)
	}
	s.note(splitAtom{k, kind, bare(d)})
	return h
}

func (s *splitter) note(a splitAtom) {
	for _, p := range s.pending {
		if p.key == a.key {
			return
		}
	}
	s.pending = append(s.pending, a)
}

// implied: a comparison the facts leave only one answer to.
func (s *splitter) implied(kind byte, d cval) (bool, bool) {
	if kind == '?' || len(s.facts) == 0 {
		return false, false
	}
	for _, t := range []bool{true, false} {
		if s.contradicts(factsOf(splitAtom{kind: kind, d: d}, t)) {
			return !t, true
		}
	}
	return false, false
}

func factsOf(a splitAtom, t bool) []splitFact {
	switch a.kind {
	case 'l':
		if t {
			return []splitFact{{e: a.d, strict: true}}
		}
		return []splitFact{{e: a.d.neg()}}
	case 'L':
		if t {
			if nonNegV[vkey(a.d)] {
				return []splitFact{{e: a.d, eq: 1}, {e: a.d}, {e: a.d.neg()}}
			}
			return []splitFact{{e: a.d}}
		}
		return []splitFact{{e: cInt(1).sub(a.d)}}
	case 'e':
		if t {
			return []splitFact{{e: a.d, eq: 1}, {e: a.d}, {e: a.d.neg()}}
		}
		return []splitFact{{e: a.d, eq: -1}}
	}
	return nil
}

// ratOf reads a value that is a small rational.
func ratOf(v cval) (*big.Rat, bool) {
	if v.a != v.b {
		return nil, false
	}
	const lim = 1 << 29
	// rational reconstruction
	r0, r1 := int64(fieldP), int64(v.a)
	t0, t1 := int64(0), int64(1)
	for r1 >= lim {
		q := r0 / r1
		r0, r1 = r1, r0-q*r1
		t0, t1 = t1, t0-q*t1
	}
	if t1 == 0 || t1 >= lim || t1 <= -lim {
		return nil, false
	}
	return big.NewRat(r1, t1), true
}

var root2 = func() cval { x := fPow(2, 1<<59); return cval{a: x, b: x} }()

// signOf is the sign of a value that is a small rational, or one plus a
// simple multiple of the root of two.
func signOf(v cval) (int, bool) {
	if v.a != v.b {
		return 0, false
	}
	if r, ok := ratOf(v); ok {
		return r.Sign(), true
	}
	for k := int64(1); k <= 64; k++ {
		for _, j := range []int64{k, -k} {
			if r, ok := ratOf(v.sub(root2.mul(cInt(j)).div(cInt(16)))); ok && r.Num().BitLen() < 14 && r.Denom().BitLen() < 14 {
				f, _ := r.Float64()
				if f += float64(j) / 16 * math.Sqrt2; f > 0 {
					return 1, true
				}
				return -1, true
			}
		}
	}
	return 0, false
}

// impossible: e <= 0 (or < 0) cannot be.
func impossible(e cval, strict bool) bool {
	if r, ok := signOf(e); ok {
		return r > 0 || strict && r == 0
	}
	if nonNegV[vkey(e)] && strict {
		return true
	}
	return nonNegV[vkey(e.sub(cInt(1)))]
}

// contradicts tells whether the facts and the new ones exclude each other.
func (s *splitter) contradicts(n []splitFact) bool {
	for i, f := range n {
		if f.eq < 0 {
			if f.e.isZero() {
				return true
			}
			for _, g := range s.facts {
				if g.eq > 0 && (g.e.eq(f.e) || g.e.eq(f.e.neg())) {
					return true
				}
			}
			if s.isSum(f.e) {
				return true
			}
			for _, g := range s.facts {
				if g.eq == 0 && !g.strict && (g.e.eq(f.e) || g.e.eq(f.e.neg())) && s.contradicts([]splitFact{{e: g.e, strict: true}}) {
					return true
				}
			}
			continue
		}
		if f.eq > 0 {
			for _, g := range s.facts {
				if g.eq < 0 && (g.e.eq(f.e) || g.e.eq(f.e.neg())) {
					return true
				}
				if g.eq < 0 && (s.isSum(g.e.add(f.e)) || s.isSum(g.e.sub(f.e))) {
					return true
				}
			}
			continue
		}
		if !f.strict && f.eq == 0 {
			f.strict = s.nonZero(f.e)
		}
		if impossible(f.e, f.strict) {
			return true
		}
		all := append(append([]splitFact{}, s.facts...), n[:i]...)
		for j, g := range all {
			if g.eq != 0 {
				continue
			}
			e2 := f.e.add(g.e)
			if impossible(e2, f.strict || g.strict) {
				return true
			}
			if impossible(e2.add(f.e), f.strict || g.strict) || impossible(e2.add(g.e), f.strict || g.strict) {
				return true
			}
			for _, h := range all[:j] {
				if h.eq != 0 {
					continue
				}
				st := f.strict || g.strict || h.strict
				e3 := e2.add(h.e)
				if impossible(e3, st) || impossible(e3.add(f.e), st) || impossible(e3.add(g.e), st) || impossible(e3.add(h.e), st) {
					return true
				}
			}
		}
	}
	return false
}

func (s *splitter) nonZero(e cval) bool {
	for _, g := range s.facts {
		if g.eq < 0 && (g.e.eq(e) || g.e.eq(e.neg())) {
			return true
		}
	}
	return false
}

// isSum: e is zero, as a sum or difference of up to two things that are.
func (s *splitter) isSum(e cval) bool {
	if e.isZero() {
		return true
	}
	for i, g := range s.facts {
		if g.eq <= 0 {
			continue
		}
		for _, x := range []cval{e.add(g.e), e.sub(g.e)} {
			if x.isZero() {
				return true
			}
			for _, h := range s.facts[:i] {
				if h.eq > 0 && (x.add(h.e).isZero() || x.sub(h.e).isZero()) {
					return true
				}
			}
		}
	}
	return false
}

// abs is |d|, when the case decides the sign of d.
func (s *splitter) abs(d cval) (cval, bool) {
	if d.num || nonNegV[vkey(d)] {
		return d, false
	}
	if r, ok := signOf(d); ok {
		if r < 0 {
			return d.neg(), true
		}
		return d, true
	}
	if s.contradicts([]splitFact{{e: d, strict: true}}) {
		return d, true
	}
	if s.contradicts([]splitFact{{e: d.neg(), strict: true}}) {
		return d.neg(), true
	}
	neg, flip := absSign(d)
	h := hashV("lt0", bare(neg))
	v := s.atom('l', neg, h)
	if !v.num {
		return d, false
	}
	// v: neg < 0
	if (v.f != 0) != flip {
		return d.neg(), true
	}
	return d, true
}

// equal decides whether two values agree in every case.
func (s *splitter) equal(c0 *canon, x, y *Expr) bool {
	if s.evals <= 0 || s.nodes <= 0 {
		return false
	}
	s.evals--
	c := newCanon()
	c.flushOK = c0.flushOK
	c.split = s
	c.max = s.nodes
	s.pending = nil
	vx, vy := c.num(x), c.num(y)
	s.nodes -= c.n
	if vx.eq(vy) {
		return true
	}
	df := vx.sub(vy)
	if m := s.substitute(c); m != nil {
		c = newCanon()
		c.flushOK = c0.flushOK
		c.max = s.nodes
		keep := s.pending
		c.split = s
		c.top.m = m
		vx, vy := c.num(x), c.num(y)
		s.nodes -= c.n
		s.pending = keep
		if vx.eq(vy) {
			return true
		}
	}
	for _, f := range s.facts {
		if f.eq > 0 {
			for _, k := range []int64{1, -1, 2, -2} {
				if bare(df).eq(bare(cInt(k).mul(f.e))) {
					return true
				}
			}
		}
	}
	if len(s.pending) == 0 || len(s.assigned) > 40 || len(s.facts) > 60 {
		if os.Getenv("VSA_SPLIT") != "" {
			fmt.Println("undecided case", len(s.pending), len(s.facts), s.assigned)
			explainDiff(c.top, c.top, x, y, 0)
		}
		return false
	}
	a := s.pending[0]
	if s.outer {
		a = s.pending[len(s.pending)-1]
	}
	keepF := s.facts
	keepA := map[[2]uint64]bool{}
	for k, v := range s.assigned {
		keepA[k] = v
	}
	for _, t := range []bool{true, false} {
		n := factsOf(a, t)
		if s.contradicts(n) {
			continue
		}
		s.assigned = map[[2]uint64]bool{}
		for k, v := range keepA {
			s.assigned[k] = v
		}
		s.assigned[a.key] = t
		s.facts = append(append([]splitFact{}, keepF...), n...)
		for i, f := range s.facts {
			if f.eq == 0 && !f.strict && s.nonZero(f.e) {
				s.facts[i].strict = true
			}
		}
		if s.products {
			k := len(s.facts)
			for _, f := range n {
				for _, g := range keepF {
					if f.eq == 0 && g.eq == 0 && !f.prod && !g.prod && (f.strict || g.strict) && len(s.facts) < 40 {
						s.facts = append(s.facts, splitFact{e: f.e.mul(g.e).neg(), strict: f.strict && g.strict, prod: true})
					}
				}
			}
			more := s.facts[k:]
			s.facts = s.facts[:k:k]
			if s.contradicts(more) {
				s.facts = keepF
				continue
			}
			s.facts = append(s.facts, more...)
		}
		ok := s.equal(c0, x, y)
		s.facts = keepF
		if !ok {
			s.assigned = keepA
			return false
		}
	}
	s.assigned = keepA
	return true
}

// sameByCases compares by cases, then again with products of facts.
func sameByCases(c *canon, x, y *Expr) (same bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(symBudget); !ok {
				panic(r)
			}
			same = false // too many cases: not shown equal
		}
	}()
	s := newSplitter()
	s.outer = true
	s.evals = 100
	if s.tries(c, x, y) || newSplitter().tries(c, x, y) {
		return true
	}
	s = newSplitter()
	s.products = true
	s.evals = 300
	return s.equal(c, x, y)
}

// tries is equal within its budget.
func (s *splitter) tries(c *canon, x, y *Expr) (same bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(symBudget); !ok {
				panic(r)
			}
			same = false
		}
	}()
	return s.equal(c, x, y)
}

func newSplitter() *splitter {
	return &splitter{assigned: map[[2]uint64]bool{}, evals: 1000, nodes: 200000}
}

// substitute gives the leaves that equations of the case fix their values.
func (s *splitter) substitute(c *canon) map[*Expr]cval {
	var eqs []cval
	for i, f := range s.facts {
		if f.eq > 0 {
			eqs = append(eqs, f.e)
			continue
		}
		if f.eq == 0 && !f.strict {
			for _, g := range s.facts[:i] {
				if g.eq == 0 && !g.strict && f.e.add(g.e).isZero() {
					eqs = append(eqs, f.e)
				}
			}
		}
	}
	if len(eqs) == 0 {
		return nil
	}
	var leaves []*Expr
	for e, v := range c.top.memo {
		if (e.K == 'i' || e.K == 'f' || e.K == 'd') && !v.num {
			switch e.Op {
			case "sym", "sel", "fv", "fld", "ver", "len":
				leaves = append(leaves, e)
			}
		}
	}
	sort.Slice(leaves, func(i, j int) bool { return leaves[i].ID < leaves[j].ID })
	m := map[*Expr]cval{}
	for _, d := range eqs {
		for _, l := range leaves {
			v := c.top.memo[l]
			if _, ok := m[l]; ok {
				continue
			}
			var to cval
			if r, ok := ratOf(d.sub(v)); ok {
				to = cRat(r).neg() // d = v + r
			} else if r, ok := ratOf(d.add(v)); ok {
				to = cRat(r) // d = r - v
			} else {
				for _, l2 := range leaves {
					if w := c.top.memo[l2]; !w.eq(v) && (d.eq(v.sub(w)) || d.eq(w.sub(v))) {
						to = w
					}
				}
				if to == (cval{}) {
					continue
				}
			}
			for _, l2 := range leaves {
				if c.top.memo[l2].eq(v) {
					m[l2] = to
				}
			}
			break
		}
	}
	if len(m) == 0 {
		return nil
	}
	return m
}
