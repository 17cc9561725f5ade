package main

import (
	"math"
	"sort"
	"strconv"
	"strings"
)

// Deciding comparisons by intervals: under the facts a value sits under, a
// comparison whose sides differ by a sum of terms of known bounds is decided
// when the sum keeps away from zero.

func ivBase() *ienv {
	return newIenv(&isrc{fuel: 20000, cell: func(*Expr, string) (ival, bool) { return ivTop, false }, sym: func(x *Expr) ival { return defaultOf(x.K) }})
}

// linearly is v with the bound that a comparison of a single multiple with a
// constant gives what is multiplied.
func linearly(v *ienv, c *Expr, truth bool) *ienv {
	if !truth || c.Op != "<" && c.Op != "<=" || c.size > 60 || c.Args[0].K != 'd' && c.Args[0].K != 'f' {
		return nil
	}
	l := &linForm{terms: map[*Expr]float64{}}
	l.add(c.Args[1], 1, 30)
	l.add(c.Args[0], -1, 30)
	if len(l.terms) != 1 {
		return nil
	}
	for e, k := range l.terms { // k*e + l.c >= 0
		if k == 0 || e == c.Args[0] || e == c.Args[1] {
			return nil
		}
		r := v.eval(e)
		b := -l.c / k
		pad := 1e-12 * math.Abs(b)
		if k > 0 && b-pad > r.lo {
			r.lo = b - pad
		} else if k < 0 && b+pad < r.hi {
			r.hi = b + pad
		} else {
			return nil
		}
		if r.lo > r.hi {
			return nil
		}
		r.nan = false
		return v.with(map[*Expr]ival{e: r})
	}
	return nil
}

// envOf is the bounds the facts give.
func (p *pruner) envOf(f facts) *ienv {
	var cs []*Expr
	for c := range f {
		if c.size < 2000 {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID < cs[j].ID })
	var sb strings.Builder
	for _, c := range cs {
		sb.WriteString(strconv.Itoa(c.ID))
		if f[c] {
			sb.WriteByte('+')
		} else {
			sb.WriteByte('-')
		}
	}
	if e, ok := p.envs[sb.String()]; ok {
		return e
	}
	v := ivBase()
	for i := 0; i < 3; i++ { // again: what one says may help the other
		if i > 0 {
			m := map[*Expr]ival{}
			for _, c := range cs {
				leavesOf(c, func(x *Expr) { m[x] = v.eval(x) })
			}
			v = ivBase().with(m)
		}
		for j := 0; j < 2; j++ {
			for _, c := range cs {
				if n := v.assume(c, f[c]); n != nil {
					v = n
				}
				if n := linearly(v, c, f[c]); n != nil {
					v = n
				}
			}
		}
	}
	p.envs[sb.String()] = v
	return v
}

func leavesOf(e *Expr, found func(*Expr)) {
	if e.Op == "sym" && (e.K == 'f' || e.K == 'd' || e.K == 'i') {
		found(e)
	}
	for _, a := range e.Args {
		leavesOf(a, found)
	}
}

type linForm struct {
	c     float64
	v     *ienv
	terms map[*Expr]float64
}

func (l *linForm) add(e *Expr, k float64, depth int) {
	if e.isNum() {
		l.c += k * numOf(e)
		return
	}
	if depth > 0 {
		switch e.Op {
		case "+", "-":
			if e.K == 'd' || e.K == 'f' {
				l.add(e.Args[0], k, depth-1)
				if e.Op == "-" {
					k = -k
				}
				l.add(e.Args[1], k, depth-1)
				return
			}
		case "un-":
			if e.K != 'i' {
				l.add(e.Args[0], -k, depth-1)
				return
			}
		case "*":
			if e.K != 'i' {
				for i, a := range e.Args {
					if a.isNum() {
						l.add(e.Args[1-i], k*numOf(a), depth-1)
						return
					}
				}
			}
		case "/":
			if e.K != 'i' && e.Args[1].isNum() && numOf(e.Args[1]) != 0 {
				l.add(e.Args[0], k/numOf(e.Args[1]), depth-1)
				return
			}
		case "call":
			if e.Str == "math.Abs" && l.v != nil {
				switch r := l.v.eval(e.Args[0]); {
				case r.nan || r.empty():
				case r.lo >= 0:
					l.add(e.Args[0], k, depth-1)
					return
				case r.hi <= 0:
					l.add(e.Args[0], -k, depth-1)
					return
				}
			}
		case "conv":
			if k0 := e.Args[0].K; e.K != 'i' && (k0 == 'f' || k0 == 'd') {
				l.add(e.Args[0], k, depth-1)
				return
			}
		}
	}
	l.terms[e] += k
}

// between bounds a-b under v; sure is false when a term may be NaN.
func between(v *ienv, a, b *Expr) (lo, hi float64, sure bool) {
	l := &linForm{v: v, terms: map[*Expr]float64{}}
	l.add(a, 1, 30)
	l.add(b, -1, 30)
	lo, hi, sure = l.c, l.c, true
	scale := math.Abs(l.c)
	for e, k := range l.terms {
		r := v.eval(e)
		if r.nan {
			sure = false
		}
		if k == 0 && !isInf(r) {
			continue
		}
		x, y := k*r.lo, k*r.hi
		if x > y {
			x, y = y, x
		}
		lo, hi = lo+x, hi+y
		for _, z := range []float64{x, y} {
			if !math.IsInf(z, 0) {
				scale = math.Max(scale, math.Abs(z))
			}
		}
	}
	if math.IsNaN(lo) || math.IsNaN(hi) || lo > hi {
		return -inf, inf, false
	}
	// what is decided keeps clear of the rounding of these sums
	eps := 1e-12 * scale
	return lo - eps, hi + eps, sure
}

func (p *pruner) byInterval(f facts, c *Expr) (bool, bool) {
	if !p.ranges || c.Op != "<" && c.Op != "<=" && c.Op != "==" || p.left <= 0 {
		return false, false
	}
	for _, a := range c.Args {
		if a.K != 'f' && a.K != 'd' || a.size > 3000 {
			return false, false
		}
	}
	lo, hi, sure := between(p.envOf(f), c.Args[0], c.Args[1])
	if c.Op == "==" {
		return false, hi < 0 || lo > 0
	}
	if hi < 0 && sure {
		return true, true
	}
	if lo > 0 {
		return false, true
	}
	return p.byFact(f, c)
}

// byFact decides a comparison by another that is known to hold, when the
// difference of their sides is of one sign.
func (p *pruner) byFact(f facts, c *Expr) (bool, bool) {
	if !p.finite || len(f) > 24 || c.size > 200 {
		return false, false
	}
	v := p.envOf(f)
	side := &linForm{v: v, terms: map[*Expr]float64{}}
	side.add(c.Args[1], 1, 30)
	side.add(c.Args[0], -1, 30)
	for k, truth := range f {
		if !truth || k.Op != "<" && k.Op != "<=" || k.size > 200 || k.Args[0].K != 'd' && k.Args[0].K != 'f' {
			continue
		}
		known := &linForm{v: v, terms: map[*Expr]float64{}}
		known.add(k.Args[1], 1, 30)
		known.add(k.Args[0], -1, 30)
		shared := 0.0
		for e, x := range known.terms {
			if y := side.terms[e]; x != 0 && y != 0 {
				if r := math.Abs(y / x); shared == 0 || r < shared {
					shared = r
				}
			}
		}
		if shared == 0 {
			continue
		}
		for _, s := range []float64{shared, -shared} {
			// side = s*known + rest
			sure := true
			rest := side.c - s*known.c
			low, high, scale := rest, rest, math.Abs(side.c)+math.Abs(known.c)
			add := func(e *Expr, x float64) {
				r := v.eval(e)
				if r.nan && known.terms[e] == 0 {
					sure = false
				}
				if x == 0 {
					return
				}
				a, b := x*r.lo, x*r.hi
				low, high = low+math.Min(a, b), high+math.Max(a, b)
				for _, z := range []float64{a, b} {
					if !math.IsInf(z, 0) {
						scale = math.Max(scale, math.Abs(z))
					}
				}
			}
			for e, x := range side.terms {
				add(e, x-s*known.terms[e])
			}
			for e, x := range known.terms {
				if _, ok := side.terms[e]; !ok {
					add(e, -s*x)
				}
			}
			if !sure || math.IsNaN(low) || math.IsNaN(high) {
				continue
			}
			// multiples of a difference cancel to within rounding
			eps := 1e-12 * scale
			switch {
			case s > 0 && low >= 0 && rest == 0 && side.c == s*known.c && (k.Op == "<" || c.Op == "<="), s > 0 && low > eps:
				return true, true
			case s < 0 && high < -eps, s < 0 && high <= 0 && rest == 0 && side.c == s*known.c && (k.Op == "<" || c.Op == "<"):
				return false, true
			}
		}
	}
	return false, false
}

// magnitude is the absolute value of a number whose sign is known.
func (p *pruner) magnitude(f facts, e *Expr, args []*Expr) *Expr {
	if !p.ranges || e.Op != "call" || e.Str != "math.Abs" || e.size > 2000 || args[0].isNum() {
		return nil
	}
	r := p.envOf(f).eval(args[0])
	switch {
	case r.nan || r.empty():
	case r.lo >= 0:
		return args[0]
	case r.hi <= 0:
		return binE("-", 'd', constF(0, 'd'), args[0])
	}
	return nil
}

// remainder is a constant part of the remainder of a division by a constant.
func (p *pruner) remainder(f facts, e *Expr, args []*Expr) *Expr {
	if !p.ranges || e.Op != "call" || e.Str != "math.Mod" || e.size > 200 {
		return nil
	}
	if !args[1].isNum() {
		below, ok := p.holds(f, binE("<", 'b', args[0], args[1]))
		up, ok2 := p.holds(f, binE("<=", 'b', constF(0, 'd'), args[0]))
		if ok && ok2 && below && up {
			return args[0]
		}
		return nil
	}
	if args[1].F <= 0 {
		return nil
	}
	lo, hi, sure := between(p.envOf(f), args[0], constF(0, args[0].K))
	m := args[1].F
	if !sure || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
		return nil
	}
	k := math.Trunc((lo + hi) / 2 / m)
	if lo > k*m-m && hi < k*m+m {
		if k > 0 && lo < k*m || k < 0 && hi > k*m {
			return nil
		}
		if k == 0 {
			return args[0]
		}
		return binE("-", e.K, args[0], constF(k*m, e.K))
	}
	return nil
}

// pick resolves a maximum or minimum whose arguments are apart.
func (p *pruner) pick(f facts, e *Expr, args []*Expr) *Expr {
	if !p.ranges || e.Op != "max" && e.Op != "min" || e.K != 'f' && e.K != 'd' {
		return nil
	}
	if p.finite {
		// numbers: one of them is below the other, or they are equal
		less, known := f[binE("<", 'b', args[0], args[1])]
		if more, ok := f[binE("<", 'b', args[1], args[0])]; !known && ok && more {
			less, known = false, true
		}
		if known {
			if less == (e.Op == "min") {
				return args[0]
			}
			return args[1]
		}
	}
	v := p.envOf(f)
	lo, hi, sure := between(v, args[0], args[1])
	if !sure {
		return nil
	}
	first := lo >= 0 || v.eval(args[0]).lo >= v.eval(args[1]).hi
	second := hi <= 0 || v.eval(args[1]).lo >= v.eval(args[0]).hi
	if e.Op == "min" {
		first, second = second, first
	}
	if first {
		return args[0]
	}
	if second {
		return args[1]
	}
	return nil
}

// elements takes two arrays written at constant places apart, place by place.
func elements(x, y *Expr) (pairs [][2]*Expr) {
	idx := map[*Expr]bool{}
	var base *Expr
	ok := true
	var walk func(e *Expr, depth int)
	walk = func(e *Expr, depth int) {
		switch {
		case !ok || depth > 40:
			ok = false
		case e.Op == "store" && e.Args[1].isNum():
			idx[e.Args[1]] = true
			walk(e.Args[0], depth)
		case e.Op == "ite":
			walk(e.Args[1], depth+1)
			walk(e.Args[2], depth+1)
		case base == nil:
			base = e
		case base != e:
			ok = false
		}
	}
	walk(x, 0)
	walk(y, 0)
	if !ok || len(idx) < 2 {
		return nil
	}
	var at []*Expr
	for i := range idx {
		at = append(at, i)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
	k := elemKind(x)
	if k == 0 {
		return nil
	}
	for _, i := range at {
		pairs = append(pairs, [2]*Expr{selE(x, i, k), selE(y, i, k)})
	}
	return pairs
}

func elemKind(e *Expr) byte {
	for {
		switch e.Op {
		case "store":
			return e.Args[2].K
		case "ite":
			if k := elemKind(e.Args[1]); k != 0 {
				return k
			}
			e = e.Args[2]
		default:
			return 0
		}
	}
}

func numOf(e *Expr) float64 {
	if e.K == 'i' {
		return float64(e.I)
	}
	return e.F
}

// factorsOf takes a real product apart.
func factorsOf(e *Expr, to []*Expr) []*Expr {
	if e.Op == "*" && (e.K == 'd' || e.K == 'f') && len(to) < 12 {
		return factorsOf(e.Args[1], factorsOf(e.Args[0], to))
	}
	return append(to, e)
}

// signedPart separates the factors that are known not to be negative (or,
// strict, known to be positive) from those that give a product its sign.
func (p *pruner) signedPart(f facts, e *Expr, strict bool) (rest, pos *Expr) {
	fs := factorsOf(e, nil)
	if len(fs) < 2 {
		return nil, nil
	}
	v := p.envOf(f)
	for _, x := range fs {
		r := v.eval(x)
		to := &rest
		if !math.IsInf(r.hi, 0) && r.lo >= 0 && (!strict || r.lo > 0 && !r.nan) {
			to = &pos
		}
		if *to == nil {
			*to = x
		} else {
			*to = mk("*", "", e.K, *to, x)
		}
	}
	if rest == nil || pos == nil {
		return nil, nil
	}
	return rest, pos
}

// unscale takes a positive factor out of a comparison with zero, and out of a
// maximum or minimum with zero.
func (p *pruner) unscale(f facts, e *Expr) *Expr {
	if !p.ranges || len(e.Args) != 2 || p.left <= 0 {
		return nil
	}
	switch e.Op {
	case "max", "min", "<", "<=":
	default:
		return nil
	}
	for i, a := range e.Args {
		if !a.isNum() || numOf(a) != 0 || a.K != 'd' && a.K != 'f' {
			continue
		}
		b := e.Args[1-i]
		if b.size > 3000 {
			return nil
		}
		cmp := e.Op == "<" || e.Op == "<="
		rest, pos := p.signedPart(f, b, cmp)
		if rest == nil {
			return nil
		}
		args := []*Expr{a, rest}
		if i == 1 {
			args = []*Expr{rest, a}
		}
		if cmp {
			return mk(e.Op, e.Str, e.K, args...)
		}
		return mk("*", "", e.K, pos, mk(e.Op, e.Str, e.K, args...))
	}
	return nil
}
