package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Value numbering of value graphs. Two graphs get the same number when they
// compute the same value over the reals, whatever way they are written: sums,
// products and quotients are numbered by their value in a finite field with
// every atom (argument, memory cell, comparison, transcendental) standing for
// an unrelated field element, so that equal rational functions of the atoms
// get equal numbers; a conditional is linear in its two sides; loops are
// numbered by refining the partition of their recurrences.

const fieldP = 1<<61 - 1

func fAdd(a, b uint64) uint64 {
	s := a + b
	if s >= fieldP {
		s -= fieldP
	}
	return s
}
func fSub(a, b uint64) uint64 {
	if a >= b {
		return a - b
	}
	return a + fieldP - b
}
func fMul(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	s := (lo & fieldP) + (lo>>61 | hi<<3)
	s = (s & fieldP) + s>>61
	if s >= fieldP {
		s -= fieldP
	}
	return s
}
func fPow(a uint64, e uint64) uint64 {
	r := uint64(1)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = fMul(r, a)
		}
		a = fMul(a, a)
	}
	return r
}
func fInv(a uint64) uint64 { return fPow(a, fieldP-2) }

func mix64(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

// cval is a value number.
type cval struct {
	a, b uint64
	num  bool    // a known number:
	f    float64 // this one
	arr  *carr   // of an array: its contents
}

type carr struct {
	prev     *carr
	idx, val cval
	fill     *Expr // a fill instead of one store
	env      *cenv
	lo, hi   cval
	base     cval // when prev is nil
	zero     bool
	cond     *cval // a choice between x and y
	x, y     cval
	under    cval // what was stored to
}

// constIdx lists the places stored to on top of an array.
func storedIdx(a cval, depth int, out *[]cval) {
	for p := a.arr; p != nil && depth < 40; p = p.prev {
		depth++
		if p.cond != nil {
			storedIdx(p.x, depth, out)
			storedIdx(p.y, depth, out)
			return
		}
		if p.prev == nil || p.fill != nil {
			return
		}
		dup := false
		for _, o := range *out {
			dup = dup || o.eq(p.idx)
		}
		if !dup {
			*out = append(*out, p.idx)
		}
	}
}

// bottom is the array below the stores, when there is one.
func bottom(a cval, depth int) (cval, bool) {
	last := bare(a)
	for p := a.arr; p != nil && depth < 40; p = p.prev {
		depth++
		if p.cond != nil {
			x, ok := bottom(p.x, depth)
			if !ok {
				return x, false
			}
			y, ok := bottom(p.y, depth)
			return x, ok && x.eq(y)
		}
		if p.zero {
			return hashV("zero"), true
		}
		if p.fill != nil {
			return last, true
		}
		if p.prev == nil {
			return bare(p.base), true
		}
		last = p.base
	}
	return last, true
}

func (v cval) eq(w cval) bool { return v.a == w.a && v.b == w.b }

func (v cval) add(w cval) cval {
	r := cval{a: fAdd(v.a, w.a), b: fAdd(v.b, w.b)}
	if v.num && w.num {
		r.num, r.f = true, v.f+w.f
	}
	return r
}
func (v cval) sub(w cval) cval {
	r := cval{a: fSub(v.a, w.a), b: fSub(v.b, w.b)}
	if v.num && w.num {
		r.num, r.f = true, v.f-w.f
	}
	return r
}
func (v cval) mul(w cval) cval {
	if v.a == w.a && v.b == w.b {
		// |x|·|x| is x·x
		if x, ok := absOf[[2]uint64{v.a, v.b}]; ok {
			v, w = x, x
		}
	}
	r := cval{a: fMul(v.a, w.a), b: fMul(v.b, w.b)}
	if v.num && w.num {
		r.num, r.f = true, v.f*w.f
	}
	return r
}
func (v cval) isZero() bool { return v.a == 0 && v.b == 0 }
func (v cval) div(w cval) cval {
	if w.isZero() || w.a == 0 || w.b == 0 {
		return hashV("div0", v, w)
	}
	r := cval{a: fMul(v.a, fInv(w.a)), b: fMul(v.b, fInv(w.b))}
	if v.num && w.num && w.f != 0 {
		r.num, r.f = true, v.f/w.f
	}
	return r
}
func (v cval) neg() cval { return cInt(0).sub(v) }
func (v cval) less(w cval) bool {
	return v.a < w.a || v.a == w.a && v.b < w.b
}

func strHash(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix64(h)
}

// hashV is an atom: a field element with no relation to any other.
func hashV(op string, vs ...cval) cval {
	h := strHash(op)
	x, y := mix64(h^0x9e3779b97f4a7c15), mix64(h^0xc2b2ae3d27d4eb4f)
	for _, v := range vs {
		x = mix64(x*31 + v.a ^ mix64(v.b+7))
		y = mix64(y*37 + v.b ^ mix64(v.a+13))
	}
	r := cval{a: x % fieldP, b: y % fieldP}
	if r.a == 0 {
		r.a = 1
	}
	if r.b == 0 {
		r.b = 1
	}
	return r
}

func cInt(i int64) cval {
	m := uint64(i)
	if i < 0 {
		m = fSub(0, uint64(-i)%fieldP)
	} else {
		m %= fieldP
	}
	return cval{a: m, b: m, num: true, f: float64(i)}
}

func cRat(r *big.Rat) cval {
	p := big.NewInt(fieldP)
	n := new(big.Int).Mod(r.Num(), p).Uint64()
	d := new(big.Int).Mod(r.Denom(), p).Uint64()
	m := fMul(n, fInv(d))
	f, _ := r.Float64()
	return cval{a: m, b: m, num: true, f: f}
}

func simpleRat(f float64, maxDen int64, tol float64) *big.Rat {
	// continued fraction
	x := math.Abs(f)
	p0, q0, p1, q1 := int64(0), int64(1), int64(1), int64(0)
	y := x
	for i := 0; i < 20; i++ {
		a := int64(math.Floor(y))
		p2, q2 := a*p1+p0, a*q1+q0
		if q2 > maxDen || p2 < 0 {
			return nil
		}
		if math.Abs(float64(p2)/float64(q2)-x) <= tol*math.Max(x, 1e-300) {
			r := big.NewRat(p2, q2)
			if f < 0 {
				r.Neg(r)
			}
			return r
		}
		p0, q0, p1, q1 = p1, q1, p2, q2
		if y == float64(a) {
			return nil
		}
		y = 1 / (y - float64(a))
		if y > 1e12 {
			return nil
		}
	}
	return nil
}

var namedConsts = []struct {
	name string
	v    float64
}{{"pi", math.Pi}, {"ln10", math.Ln10}, {"ln2", math.Ln2}}

func cConst(f float64, k byte) cval {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		return hashV(fmt.Sprint("const", f))
	}
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
		return cInt(int64(f))
	}
	if f == math.E || k == 'f' && float32(f) == float32(math.E) {
		r := cE(cInt(1))
		r.num, r.f = true, f
		return r
	}
	bitsN, digits, tol := 64, 13, 5e-16
	if k != 'f' && f == float64(float32(f)) && len(strconv.FormatFloat(f, 'e', -1, 32)) < len(strconv.FormatFloat(f, 'e', -1, 64)) {
		k = 'f' // a constant that went through float32
	}
	if k == 'f' {
		bitsN, digits, tol = 32, 7, 1e-7
	}
	s := strconv.FormatFloat(f, 'e', -1, bitsN)
	mant, _, _ := strings.Cut(s, "e")
	if len(strings.Trim(mant, "-.")) <= digits+1 {
		if r, ok := new(big.Rat).SetString(s); ok {
			v := cRat(r)
			v.f = f
			return v
		}
	}
	if r := simpleRat(f/math.Pi, 48, tol); k == 'f' && r != nil {
		v := cRat(r).mul(hashV("const:pi"))
		v.num, v.f = true, f
		return v
	}
	if r := simpleRat(f, 1000, tol); r != nil {
		v := cRat(r)
		v.f = f
		return v
	}
	for _, n := range namedConsts {
		if r := simpleRat(f/n.v, 1000, 2*tol); r != nil {
			at := hashV("const:" + n.name)
			if n.name != "pi" {
				at = cL(cInt(map[string]int64{"ln10": 10, "ln2": 2}[n.name]))
			}
			v := cRat(r).mul(at)
			v.num, v.f = true, f
			return v
		}
		if r := simpleRat(f*n.v, 1000, 2*tol); r != nil {
			at := hashV("const:" + n.name)
			if n.name != "pi" {
				at = cL(cInt(map[string]int64{"ln10": 10, "ln2": 2}[n.name]))
			}
			v := cRat(r).div(at)
			v.num, v.f = true, f
			return v
		}
	}
	if r := simpleRat(f/math.Sqrt2, 1000, 2*tol); r != nil {
		s2 := fPow(2, 1<<59)
		v := cRat(r).mul(cval{a: s2, b: s2})
		v.num, v.f = true, f
		return v
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	v := cRat(r)
	v.f = f
	return v
}

// canonical sign: one of v and -v, and whether it was flipped.
func absSign(v cval) (cval, bool) {
	n := v.neg()
	if v.isZero() {
		return v, false
	}
	if n.less(v) {
		return n, true
	}
	return v, false
}

// exponentials and logarithms are inverse to each other.
var logArg = map[[2]uint64]cval{} // number of log(v) -> v
var expArg = map[[2]uint64]cval{} // number of exp(u) -> u

func cE(u cval) cval {
	if u.isZero() {
		return cInt(1)
	}
	if v, ok := logArg[[2]uint64{u.a, u.b}]; ok {
		return v
	}
	c, flip := absSign(u)
	if v, ok := logArg[[2]uint64{c.a, c.b}]; ok {
		if flip {
			return cInt(1).div(v)
		}
		return v
	}
	r := hashV("exp", cval{a: c.a, b: c.b})
	if flip {
		r = cInt(1).div(r)
	}
	expArg[[2]uint64{r.a, r.b}] = u
	if u.num {
		r.num, r.f = true, math.Exp(u.f)
	}
	return r
}

func cL(v cval) cval {
	if v.eq(cInt(1)) {
		return cInt(0)
	}
	if u, ok := expArg[[2]uint64{v.a, v.b}]; ok {
		return u
	}
	// log(1/v) = -log v
	inv := cInt(1).div(v)
	w, flip := v, false
	if inv.less(v) && !(v.num && v.f > 1) || v.num && v.f < 1 && v.f > 0 {
		w, flip = inv, true
	}
	r := hashV("log", cval{a: w.a, b: w.b})
	if flip {
		r = r.neg()
	}
	if v.num && v.f > 0 {
		r.num, r.f = true, math.Log(v.f)
	}
	logArg[[2]uint64{r.a, r.b}] = v
	return r
}

// sine and cosine through the tangent of half the angle, so that the
// identities between them hold.
func cTrig(u cval) (sin, cos cval) {
	if u.isZero() {
		return cInt(0), cInt(1)
	}
	piAt := hashV("const:pi")
	for q := int64(-8); q <= 8; q++ {
		if u.eq(piAt.mul(cInt(q)).div(cInt(2))) {
			switch ((q % 4) + 4) % 4 {
			case 0:
				return cInt(0), cInt(1)
			case 1:
				return cInt(1), cInt(0)
			case 2:
				return cInt(0), cInt(-1)
			default:
				return cInt(-1), cInt(0)
			}
		}
	}
	if r, ok := ratOf(u.div(piAt)); ok {
		if sin, cos, ok := dyadicTrig(r); ok {
			return sin, cos
		}
	}
	// angles that differ by a multiple of a quarter turn, or in sign, share
	// one tangent
	base, s, q := bare(u), int64(1), int64(0)
	if !angles[vkey(u)] {
	find:
		for i := int64(-8); i <= 8; i++ {
			for _, j := range []int64{1, -1} {
				w := cInt(j).mul(u).add(piAt.mul(cInt(i)).div(cInt(2)))
				if angles[vkey(w)] {
					base, s, q = bare(w), j, i
					break find
				}
			}
		}
		angles[vkey(base)] = true
	}
	t := hashV("tan/2", base)
	den := cInt(1).add(t.mul(t))
	sn, cs := t.add(t).div(den), cInt(1).sub(t.mul(t)).div(den)
	// s·u = base - q·π/2
	switch ((q % 4) + 4) % 4 {
	case 0:
		sin, cos = sn, cs
	case 1:
		sin, cos = cs.neg(), sn
	case 2:
		sin, cos = sn.neg(), cs.neg()
	case 3:
		sin, cos = cs, sn.neg()
	}
	if s < 0 {
		sin = sin.neg()
	}
	return sin, cos
}

// The sines and cosines of dyadic fractions of a turn are the points of the
// circle over the field whose order is a power of two: the circle has 2^61
// points. turnRoot[m] is a turn's 2^m-th part.
var turnRoot = func() (t [62][2]cval) {
	mul := func(x, y [2]uint64) [2]uint64 {
		return [2]uint64{fSub(fMul(x[0], y[0]), fMul(x[1], y[1])), fAdd(fMul(x[0], y[1]), fMul(x[1], y[0]))}
	}
	pow := func(x [2]uint64, e uint64) [2]uint64 {
		r := [2]uint64{1, 0}
		for ; e > 0; e >>= 1 {
			if e&1 == 1 {
				r = mul(r, x)
			}
			x = mul(x, x)
		}
		return r
	}
	half := fInv(2)
	s2 := fMul(fPow(2, 1<<59), half) // the square root of a half
	for q := uint64(2); ; q++ {
		// a point of the circle of slope q
		den := fInv(fAdd(1, fMul(q, q)))
		g := [2]uint64{fMul(fSub(1, fMul(q, q)), den), fMul(fAdd(q, q), den)}
		if pow(g, 1<<60) == [2]uint64{1, 0} {
			continue // not of full order
		}
		if pow(g, 1<<59)[1] != 1 {
			g[1] = fSub(0, g[1])
		}
		if pow(g, 1<<58)[0] != s2 {
			g = pow(g, 5)
		}
		h := pow(g, 9) // told apart from 16 parts on, so that none is taken for a rational
		for m := range t {
			x, y := pow(g, 1<<(61-m)), pow(h, 1<<(61-m))
			t[m] = [2]cval{{a: x[0], b: y[0]}, {a: x[1], b: y[1]}}
		}
		return
	}
}()

// dyadicTrig is the sine and cosine of r·π for a dyadic fraction r.
func dyadicTrig(r *big.Rat) (sin, cos cval, ok bool) {
	d := r.Denom()
	m := d.BitLen() - 1
	if m > 40 || d.TrailingZeroBits() != uint(m) {
		return
	}
	n := new(big.Int).Mod(r.Num(), new(big.Int).Lsh(big.NewInt(1), uint(m+1))).Uint64()
	c, s := cInt(1), cInt(0)
	for i := m + 1; i >= 0 && n > 0; i-- {
		if n&1 == 1 {
			w := turnRoot[i]
			c, s = c.mul(w[0]).sub(s.mul(w[1])), c.mul(w[1]).add(s.mul(w[0]))
		}
		n >>= 1
	}
	f, _ := r.Float64()
	c.num, s.num = true, true
	s.f, c.f = math.Sincos(f * math.Pi)
	for _, x := range []*cval{&s, &c} {
		if x.isZero() {
			x.f = 0
		}
	}
	return s, c, true
}

var angles = map[[2]uint64]bool{} // the angles whose half has a tangent

var nonNegV = map[[2]uint64]bool{}
var absOf = map[[2]uint64]cval{}

// cAbs is |d|.
func cAbs(d cval) cval {
	r := cAbs1(d)
	nonNegV[[2]uint64{r.a, r.b}] = true
	return r
}

func cAbs1(d cval) cval {
	if nonNegV[[2]uint64{d.a, d.b}] {
		return d
	}
	if d.a == 0 && d.b == 0 {
		return cInt(0)
	}
	if d.num {
		if d.f < 0 {
			return d.neg()
		}
		return d
	}
	c, _ := absSign(d)
	r := hashV("abs", cval{a: c.a, b: c.b})
	absOf[[2]uint64{r.a, r.b}] = c
	return r
}

func cBool(b bool) cval {
	if b {
		return cInt(1)
	}
	return cInt(0)
}

// cenv gives the loop variables their numbers.
type cenv struct {
	up    *cenv
	m     map[*Expr]cval
	memo  map[*Expr]cval
	level int
	loops map[*Expr]*cloop
	can   *canon
}

type cloop struct {
	exits []cval
	it    cval
}

type canon struct {
	top     *cenv
	n, max  int
	flushOK bool      // comparisons of |x| with a tiny constant: taken as "not tiny"
	split   *splitter // decides comparisons by cases
}

func newCanon() *canon {
	c := &canon{max: 3000000}
	c.top = &cenv{m: map[*Expr]cval{}, memo: map[*Expr]cval{}, loops: map[*Expr]*cloop{}, can: c}
	return c
}

func (c *canon) num(e *Expr) cval { return c.top.eval(e) }

func (v *cenv) with(m map[*Expr]cval) *cenv {
	return &cenv{up: v, m: m, memo: map[*Expr]cval{}, level: v.level + 1, loops: map[*Expr]*cloop{}, can: v.can}
}

func (v *cenv) touched(e *Expr) bool {
	for _, f := range e.free {
		if _, ok := v.m[f]; ok {
			return true
		}
	}
	return false
}

func (v *cenv) eval(e *Expr) cval {
	if r, ok := v.m[e]; ok {
		return r
	}
	if v.up != nil && !v.touched(e) {
		return v.up.eval(e)
	}
	if r, ok := v.memo[e]; ok {
		return r
	}
	v.can.n++
	if v.can.n > v.can.max {
		panic(symBudget{"value numbering"})
	}
	r := v.eval1(e)
	if unsignedE[e] || (e.K == 'd' || e.K == 'f') && v.squares(e) {
		nonNegV[vkey(r)] = true
	}
	v.memo[e] = r
	return r
}

// squares tells of numbers that are never negative by their form.
func (v *cenv) squares(e *Expr) bool {
	pos := func(x *Expr) bool {
		r := v.eval(x)
		return r.num && r.f >= 0 || !r.num && nonNegV[vkey(r)]
	}
	switch e.Op {
	case "*":
		return v.eval(e.Args[0]).eq(v.eval(e.Args[1])) || pos(e.Args[0]) && pos(e.Args[1])
	case "+", "/":
		return pos(e.Args[0]) && pos(e.Args[1])
	case "call":
		return e.Str == "math.Sqrt" && pos(e.Args[0])
	}
	return false
}

func (v *cenv) hashArgs(op string, e *Expr) cval {
	vs := make([]cval, len(e.Args))
	for i, a := range e.Args {
		vs[i] = v.eval(a)
	}
	return hashV(op, vs...)
}

func bare(v cval) cval { return cval{a: v.a, b: v.b} }

// cLT is [d < 0] over the reals; cLE0 is [d <= 0] over the integers.
func (v *cenv) cLT(d cval) cval {
	if d.num {
		return cBool(d.f < 0 && !d.isZero())
	}
	if nonNegV[vkey(d)] {
		return cInt(0)
	}
	return v.atom('l', d, hashV("lt0", bare(d)))
}
func (v *cenv) cLE0(d cval) cval {
	if d.num {
		return cBool(d.f <= 0 || d.isZero())
	}
	if nonNegV[vkey(d.neg())] {
		return cInt(1)
	}
	if nonNegV[vkey(d.sub(cInt(1)))] {
		return cInt(0)
	}
	o := cInt(1).sub(d)
	if bare(o).less(bare(d)) {
		return cInt(1).sub(v.atom('L', o, hashV("le0", bare(o))))
	}
	return v.atom('L', d, hashV("le0", bare(d)))
}
func (v *cenv) cEQ(d cval, str bool) cval {
	if d.num {
		return cBool(d.f == 0 || d.isZero())
	}
	if d.isZero() {
		return cInt(1)
	}
	c, _ := absSign(d)
	return v.atom('e', c, hashV("eq0", bare(c)))
}

func (v *cenv) atom(kind byte, d, a cval) cval {
	if s := v.can.split; s != nil && v.up == nil {
		return s.atom(kind, d, a)
	}
	return a
}

func (v *cenv) abs(d cval) cval {
	if s := v.can.split; s != nil && v.up == nil {
		if r, ok := s.abs(d); ok {
			return r
		}
	}
	return cAbs(d)
}

func (v *cenv) cMin(x, y cval) cval { return x.add(y).sub(v.abs(x.sub(y))).div(cInt(2)) }
func (v *cenv) cMax(x, y cval) cval { return x.add(y).add(v.abs(x.sub(y))).div(cInt(2)) }

func tinyCmp(e *Expr) bool {
	if e.Op != "<" && e.Op != "<=" {
		return false
	}
	t := func(x *Expr) bool { return x.isNum() && x.K != 'i' && x.F != 0 && math.Abs(x.F) <= 1e-10 }
	return t(e.Args[1]) && e.Args[0].Op == "call" && e.Args[0].Str == "math.Abs"
}

func (v *cenv) eval1(e *Expr) cval {
	switch e.Op {
	case "const":
		switch {
		case e.isNum():
			if e.K == 'i' {
				return cInt(e.I)
			}
			return cConst(e.F, e.K)
		case e == eTrue:
			return cInt(1)
		case e == eFalse:
			return cInt(0)
		}
		return hashV("const:" + e.Str + string(e.K))
	case "sym":
		return hashV("sym:" + e.Str)
	case "bv":
		return hashV("free:" + string([]rune(e.Str)[:1]) + strings.SplitN(e.Str, ".", 2)[0])
	case "+":
		if e.K == 's' {
			return v.hashArgs("concat", e)
		}
		x, y := v.eval(e.Args[0]), v.eval(e.Args[1])
		r := x.add(y)
		logSums(x, y, r, "+")
		return r
	case "-":
		x, y := v.eval(e.Args[0]), v.eval(e.Args[1])
		r := x.sub(y)
		logSums(x, y, r, "-")
		return r
	case "*":
		return v.eval(e.Args[0]).mul(v.eval(e.Args[1]))
	case "/":
		x, y := v.eval(e.Args[0]), v.eval(e.Args[1])
		if e.K == 'i' {
			if x.num && y.num && y.f != 0 {
				return cInt(int64(x.f) / int64(y.f))
			}
			return hashV("idiv", bare(x), bare(y))
		}
		return x.div(y)
	case "%", "<<", ">>", "&", "|", "^", "&^":
		x, y := v.eval(e.Args[0]), v.eval(e.Args[1])
		if x.num && y.num {
			if r := binE(e.Op, 'i', constI(int64(x.f)), constI(int64(y.f))); r.isNum() {
				return cInt(r.I)
			}
		}
		if (e.Op == "&" || e.Op == "|" || e.Op == "^") && bare(y).less(bare(x)) {
			x, y = y, x
		}
		if e.Op == "<<" && y.num && y.f >= 0 && y.f < 60 {
			return x.mul(cInt(1 << int64(y.f)))
		}
		return hashV(e.Op, bare(x), bare(y))
	case "un":
		return v.hashArgs("un"+e.Str, e)
	case "max":
		return v.cMax(v.eval(e.Args[0]), v.eval(e.Args[1]))
	case "min":
		return v.cMin(v.eval(e.Args[0]), v.eval(e.Args[1]))
	case "<", "<=":
		if e.Args[0].K == 's' {
			if e.Op == "<" {
				return v.atom('?', cval{}, v.hashArgs("slt", e))
			}
			return v.atom('?', cval{}, v.hashArgs("sle", e))
		}
		if v.can.flushOK && tinyCmp(e) {
			return cInt(0)
		}
		d := v.eval(e.Args[0]).sub(v.eval(e.Args[1]))
		if e.Args[0].K == 'i' && e.Args[1].K == 'i' {
			if e.Op == "<" {
				d = d.add(cInt(1))
			}
			return v.cLE0(d)
		}
		if e.Op == "<" {
			return v.cLT(d)
		}
		return cInt(1).sub(v.cLT(d.neg()))
	case "==":
		if a, b := e.Args[0], e.Args[1]; a.K == 'o' && (a.Op == "ite" || b.Op == "ite") {
			if b.Op != "ite" {
				a, b = b, a
			}
			c, t, f := v.eval(b.Args[0]), binE("==", e.K, a, b.Args[1]), binE("==", e.K, a, b.Args[2])
			if c.num {
				if c.f != 0 {
					return v.eval(t)
				}
				return v.eval(f)
			}
			if v.eval(t).num || v.eval(f).num {
				return c.mul(v.eval(t)).add(cInt(1).sub(c).mul(v.eval(f)))
			}
		}
		x, y := v.eval(e.Args[0]), v.eval(e.Args[1])
		switch e.Args[0].K {
		case 'i':
			// of what is never negative: no more than nothing
			if d := x.sub(y); !d.num && nonNegV[vkey(d)] {
				return v.cLE0(d)
			} else if !d.num && nonNegV[vkey(d.neg())] {
				return v.cLE0(d.neg())
			}
			return v.cEQ(x.sub(y), false)
		case 'f', 'd':
			return v.cEQ(x.sub(y), false)
		case 'b':
			// x == y
			if x.num && y.num {
				return cBool(x.f == y.f)
			}
			p := x.mul(y)
			return p.add(cInt(1).sub(x)).sub(y).add(p)
		}
		if x.eq(y) {
			return cInt(1)
		}
		if bare(y).less(bare(x)) {
			x, y = y, x
		}
		return v.atom('?', cval{}, hashV("same", bare(x), bare(y)))
	case "!":
		return cInt(1).sub(v.eval(e.Args[0]))
	case "and":
		return v.eval(e.Args[0]).mul(v.eval(e.Args[1]))
	case "or":
		x, y := v.eval(e.Args[0]), v.eval(e.Args[1])
		return x.add(y).sub(x.mul(y))
	case "ite":
		return v.ite(e)
	case "conv":
		x := v.eval(e.Args[0])
		from := e.Args[0].K
		switch {
		case (e.K == 'f' || e.K == 'd') && (from == 'f' || from == 'd' || from == 'i'):
			return x
		case e.K == 'i' && (from == 'f' || from == 'd'):
			if x.num {
				return cInt(int64(x.f))
			}
			return hashV("trunc", bare(x))
		case e.K == 'i' && from == 'i':
			if x.num {
				return v.evalConst(convE(constI(int64(x.f)), e.Str, 'i'))
			}
		}
		return hashV("conv"+e.Str, bare(x))
	case "call":
		return v.call(e)
	case "sel":
		return v.sel(v.eval(e.Args[0]), v.eval(e.Args[1]))
	case "store":
		a, i, x := v.eval(e.Args[0]), v.eval(e.Args[1]), v.eval(e.Args[2])
		return storeV(a, i, x)
	case "zero":
		r := hashV("zero")
		r.arr = &carr{zero: true}
		return r
	case "fill":
		pre := v.eval(e.Args[0])
		lo, hi := v.eval(e.Args[1]), v.eval(e.Args[2])
		h := hashV(fmt.Sprintf("hole%d", v.level))
		b := v.with(map[*Expr]cval{e.Args[4]: h})
		x := b.eval(e.Args[3])
		if e.Str == "all" {
			pre = cval{}
		}
		r := hashV("fill"+e.Str, bare(pre), bare(lo), bare(hi), bare(x))
		r.arr = &carr{prev: arrOfV(pre), fill: e, env: v, lo: lo, hi: hi, base: r}
		return r
	case "loopexit":
		l := v.loop(e.Args[0])
		if e.Str == "it" {
			return l.it
		}
		i, _ := strconv.Atoi(e.Str)
		return l.exits[i]
	case "loop":
		return hashV("loop")
	case "app":
		return v.hashArgs("app", e)
	case "make", "obj", "append":
		return v.hashArgs(e.Op+e.Str, e)
	}
	if e.K == 'b' {
		return v.atom('?', cval{}, v.hashArgs(e.Op+":"+e.Str, e))
	}
	return v.hashArgs(e.Op+":"+e.Str, e)
}

func (v *cenv) evalConst(e *Expr) cval {
	if e.isNum() {
		return cInt(e.I)
	}
	return hashV("?")
}

func arrOfV(a cval) *carr {
	if a.arr != nil {
		return a.arr
	}
	return &carr{base: bare(a)}
}

func storeV(a, i, x cval) cval {
	if !i.num {
		return storeOn(a, i, x)
	}
	// stores to known places are kept in the order of the places
	type cell struct{ i, x cval }
	var after []cell
	on := a
	for n := 0; n < 200; n++ {
		p := on.arr
		if p == nil || p.prev == nil || p.fill != nil || p.cond != nil || !p.idx.num || p.idx.f < i.f {
			break
		}
		if p.idx.f > i.f {
			after = append(after, cell{p.idx, p.val})
		}
		on = p.under
	}
	if !(on.arr != nil && on.arr.zeroAt(i.f) && (x.eq(cInt(0)) || x.arr != nil && x.arr.zero)) {
		on = storeOn(on, i, x)
	}
	for k := len(after) - 1; k >= 0; k-- {
		on = storeOn(on, after[k].i, after[k].x)
	}
	return on
}

// zeroAt is whether the place has not been written since all were zero.
func (p *carr) zeroAt(i float64) bool {
	for ; p != nil; p = p.prev {
		if p.zero {
			return true
		}
		if p.prev == nil || p.fill != nil || p.cond != nil || !p.idx.num || p.idx.f == i {
			return false
		}
	}
	return false
}

func storeOn(a, i, x cval) cval {
	// a later store to the same place hides the earlier one
	if p := a.arr; p != nil && p.prev != nil && p.fill == nil && p.cond == nil && p.idx.eq(i) {
		a = p.under
	}
	r := hashV("store", bare(a), bare(i), bare(x))
	r.arr = &carr{prev: arrOfV(a), idx: i, val: x, base: bare(a), under: a}
	return r
}

func (v *cenv) sel(a, i cval) cval {
	top := bare(a)
	for p := a.arr; p != nil; p = p.prev {
		switch {
		case p.cond != nil:
			x, y := v.sel(p.x, i), v.sel(p.y, i)
			r := y.add(p.cond.mul(x.sub(y)))
			r.num = r.num && p.cond.num
			if x.eq(y) {
				return x
			}
			return r
		case p.zero:
			return cInt(0)
		case p.fill != nil:
			val := p.env.with(map[*Expr]cval{p.fill.Args[4]: i}).eval(p.fill.Args[3])
			if p.fill.Str == "all" {
				return val
			}
			in := v.cLE0(p.lo.sub(i)).mul(v.cLE0(i.sub(p.hi).add(cInt(1))))
			if in.num && in.f == 1 {
				return val
			}
			rest := v.sel(cval{a: p.prev.base.a, b: p.prev.base.b, arr: p.prev}, i)
			return rest.add(in.mul(val.sub(rest)))
		case p.prev != nil:
			if p.idx.eq(i) {
				return p.val
			}
			if d := p.idx.sub(i); d.num && d.f != 0 {
				top = p.base
				continue
			}
			return hashV("sel", top, bare(i))
		}
		return hashV("sel", bare(p.base), bare(i))
	}
	return hashV("sel", top, bare(i))
}

func (v *cenv) ite(e *Expr) cval {
	c := v.eval(e.Args[0])
	if c.num {
		if c.f != 0 {
			return v.eval(e.Args[1])
		}
		return v.eval(e.Args[2])
	}
	x, y := v.eval(e.Args[1]), v.eval(e.Args[2])
	if x.eq(y) {
		return x
	}
	// a choice that is continuous where its condition switches
	if ce := e.Args[0]; e.K == 'f' || e.K == 'd' || e.K == 'i' {
		neg := false
		for ce.Op == "!" {
			ce, neg = ce.Args[0], !neg
		}
		if ce.Op == "<" || ce.Op == "<=" {
			if k := ce.Args[0].K; k == 'f' || k == 'd' || k == 'i' {
				d := v.eval(ce.Args[0]).sub(v.eval(ce.Args[1]))
				if k == 'i' && ce.Op == "<=" {
					// a+1 <= b is a < b; try both readings
					if r, ok := v.contIte(d, x, y, neg); ok {
						return r
					}
					d = d.sub(cInt(1))
				}
				if r, ok := v.contIte(d, x, y, neg); ok {
					return r
				}
			}
		}
	}
	r := y.add(c.mul(x.sub(y)))
	r.num = false
	if x.arr != nil || y.arr != nil {
		r.arr = &carr{cond: &c, x: x, y: y}
	}
	return r
}

// contIte numbers (d<0 ? x : y) when x-y is a small multiple of d.
func (v *cenv) contIte(d, x, y cval, neg bool) (cval, bool) {
	if d.isZero() {
		return cval{}, false
	}
	if neg {
		x, y = y, x
	}
	df := x.sub(y)
	for _, k := range []int64{1, -1, 2, -2} {
		if bare(df).eq(bare(cInt(k).mul(d))) {
			// y + k·min(d,0)
			r := y.add(cInt(k).mul(d.sub(v.abs(d)).div(cInt(2))))
			r.num = false
			return r, true
		}
	}
	return cval{}, false
}

// log is the logarithm of e, of a product or quotient as the sum of the
// logarithms of the factors.
func (v *cenv) log(e *Expr) cval {
	x := v.eval(e)
	for e.Op == "conv" && e.K != 'i' && e.Args[0].K != 'i' {
		e = e.Args[0]
	}
	if e.Op != "*" && e.Op != "/" || e.K == 'i' || e.K == 's' || x.num {
		return cL(x)
	}
	k := vkey(x)
	if _, ok := expArg[k]; ok || logSum[k] != (cval{}) {
		if ok {
			return cL(x)
		}
		return logSum[k]
	}
	a, b := v.log(e.Args[0]), v.log(e.Args[1])
	r := a.add(b)
	if e.Op == "/" {
		r = a.sub(b)
	}
	if r.isZero() {
		return r
	}
	logSum[k] = bare(r)
	logArg[vkey(r)] = bare(x)
	return r
}

var logSum = map[[2]uint64]cval{}

// logSums notes the sum or difference of two logarithms.
func logSums(x, y, r cval, op string) {
	a, ok := logArg[vkey(x)]
	if !ok {
		return
	}
	b, ok := logArg[vkey(y)]
	if !ok || r.isZero() {
		return
	}
	p := a.mul(b)
	if op == "-" {
		p = a.div(b)
	}
	logArg[vkey(r)] = bare(p)
	if _, ok := logSum[vkey(p)]; !ok {
		logSum[vkey(p)] = bare(r)
	}
}

// expOf is the exponential of u, which is scale times e: whole multiples of
// logarithms among the terms of e come out as powers.
func (v *cenv) expOf(e *Expr, u cval, scale float64) cval {
	c, _ := absSign(u)
	if _, ok := logArg[vkey(u)]; ok || u.isZero() || u.num || scale == 0 || e.size > 2000 {
		return cE(u)
	}
	if _, ok := logArg[vkey(c)]; ok {
		return cE(u)
	}
	terms := map[*Expr]float64{}
	var order []*Expr
	v.logTerms(e, scale, 30, func(x *Expr, k float64) {
		if _, ok := terms[x]; !ok {
			order = append(order, x)
		}
		terms[x] += k
	})
	r, whole := cInt(1), u
	for _, x := range order {
		k := terms[x]
		n := math.Round(k)
		if n == 0 || math.Abs(n) > 4 || math.Abs(k-n) > 1e-12 {
			continue
		}
		a := v.eval(x)
		u = u.sub(cInt(int64(n)).mul(v.log(x)))
		for ; n > 0; n-- {
			r = r.mul(a)
		}
		for ; n < 0; n++ {
			r = r.div(a)
		}
	}
	r = r.mul(cE(u))
	if _, ok := expArg[vkey(r)]; !ok && !r.num && u != whole {
		if _, ok := logSum[vkey(r)]; !ok {
			expArg[vkey(r)] = bare(whole)
		}
	}
	return r
}

// logTerms hands on the arguments of the logarithms in a sum, and how many
// natural logarithms of each the sum holds.
func (v *cenv) logTerms(e *Expr, k float64, depth int, found func(*Expr, float64)) {
	if depth == 0 || e.K != 'd' && e.K != 'f' {
		return
	}
	switch e.Op {
	case "+", "-":
		v.logTerms(e.Args[0], k, depth-1, found)
		if e.Op == "-" {
			k = -k
		}
		v.logTerms(e.Args[1], k, depth-1, found)
	case "un-":
		v.logTerms(e.Args[0], -k, depth-1, found)
	case "*":
		for i, a := range e.Args {
			if a.isNum() {
				v.logTerms(e.Args[1-i], k*numOf(a), depth-1, found)
				return
			}
		}
	case "/":
		if e.Args[1].isNum() && numOf(e.Args[1]) != 0 {
			v.logTerms(e.Args[0], k/numOf(e.Args[1]), depth-1, found)
		}
	case "conv":
		v.logTerms(e.Args[0], k, depth-1, found)
	case "ite":
		if c := v.eval(e.Args[0]); c.num {
			i := 2
			if c.f != 0 {
				i = 1
			}
			v.logTerms(e.Args[i], k, depth-1, found)
		}
	case "call":
		switch e.Str {
		case "math.Log10":
			found(e.Args[0], k/math.Ln10)
		case "math.Log2":
			found(e.Args[0], k/math.Ln2)
		case "math.Log":
			found(e.Args[0], k)
		}
	}
}

func (v *cenv) call(e *Expr) cval {
	arg := func(i int) cval { return v.eval(e.Args[i]) }
	switch e.Str {
	case "math.Abs":
		return v.abs(arg(0))
	case "math.Exp":
		return v.expOf(e.Args[0], arg(0), 1)
	case "math.Exp2":
		return v.expOf(e.Args[0], arg(0).mul(cL(cInt(2))), math.Ln2)
	case "math.Log":
		return v.log(e.Args[0])
	case "math.Log10":
		return v.log(e.Args[0]).div(cL(cInt(10)))
	case "math.Log2":
		return v.log(e.Args[0]).div(cL(cInt(2)))
	case "math.Sin":
		s, _ := cTrig(arg(0))
		return s
	case "math.Cos":
		_, c := cTrig(arg(0))
		return c
	case "math.Tan":
		s, c := cTrig(arg(0))
		return s.div(c)
	case "math.Atan":
		u, flip := absSign(arg(0))
		r := hashV("atan", bare(u))
		if flip {
			return r.neg()
		}
		return r
	case "math.Mod": // of the sign of what is divided
		u, flip := absSign(arg(0))
		r := hashV("mod", bare(u), bare(arg(1)))
		if flip {
			return r.neg()
		}
		return r
	case "math.Tanh":
		x := cE(arg(0).mul(cInt(2)))
		return x.sub(cInt(1)).div(x.add(cInt(1)))
	case "math.Sinh":
		x := cE(arg(0))
		return x.sub(cInt(1).div(x)).div(cInt(2))
	case "math.Cosh":
		x := cE(arg(0))
		return x.add(cInt(1).div(x)).div(cInt(2))
	case "math.Pow":
		x, y := arg(0), arg(1)
		if y.num && y.f == math.Trunc(y.f) && math.Abs(y.f) <= 16 {
			r := cInt(1)
			for i := 0; i < int(math.Abs(y.f)); i++ {
				r = r.mul(x)
			}
			if y.f < 0 {
				r = cInt(1).div(r)
			}
			return r
		}
		scale := 0.0
		if x.num && x.f > 0 {
			scale = math.Log(x.f)
		}
		return v.expOf(e.Args[1], y.mul(v.log(e.Args[0])), scale)
	case "math.Sqrt":
		x := arg(0)
		if x.num {
			return cConst(math.Sqrt(x.f), 'd')
		}
		return hashV("sqrt", bare(x))
	}
	return v.hashArgs("call:"+e.Str, e)
}

const (
	unrollN = 2 // iterations numbered exactly
	refineN = 4 // rounds of partition refinement at a general iteration
)

// loop numbers the exit values of a loop. Recurrences that count are a
// function of the iteration; the others are told apart by their first values
// and then by their steps at a general iteration, until dependent recurrences
// have been told apart too.
func (v *cenv) loop(l *Expr) *cloop {
	if v.up != nil && !v.touched(l) {
		return v.up.loop(l)
	}
	if r := v.loops[l]; r != nil {
		return r
	}
	n, inits, bvs, steps, cont, exits := loopParts(l)
	IT := hashV(fmt.Sprintf("IT%d", v.level))
	val := make([]cval, n)
	lin := make([]*int64, n)
	for i := range val {
		val[i] = v.eval(inits[i])
		if bvs[i].K == 'i' {
			if d := binE("-", 'i', steps[i], bvs[i]); d.isNum() {
				c := d.I
				lin[i] = &c
			}
		}
	}
	first := append([]cval{}, val...)
	col := append([]cval{}, val...)
	hist := [][]cval{first}
	its := map[*Expr]bool{}
	for _, s := range append(append([]*Expr{cont}, steps...), exits...) {
		for _, f := range s.free {
			if strings.HasPrefix(f.Str, "it") {
				its[f] = true
			}
		}
	}
	env := func(vs []cval, it cval) *cenv {
		m := map[*Expr]cval{}
		for i := range vs {
			m[bvs[i]] = vs[i]
		}
		for b := range its {
			if _, ok := m[b]; !ok && boundBy(l, b) {
				m[b] = it
			}
		}
		return v.with(m)
	}
	for r := 0; r < unrollN; r++ {
		b := env(val, cInt(int64(r)))
		next := make([]cval, n)
		for i := range next {
			next[i] = b.eval(steps[i])
		}
		for i := range next {
			col[i] = hashV("then", bare(col[i]), bare(next[i]))
		}
		val = next
		hist = append(hist, next)
	}
	// an array the loop only changes at fixed places is a set of scalars
	type cell struct {
		i   int
		idx cval
		col cval
	}
	var cells []cell
	for i := range val {
		if bvs[i].K != 'o' || val[i].eq(first[i]) {
			continue
		}
		var idx []cval
		storedIdx(val[i], 0, &idx)
		b0, ok0 := bottom(first[i], 0)
		b1, ok1 := bottom(val[i], 0)
		fixed := ok0 && ok1 && b0.eq(b1) && len(idx) > 0 && len(idx) <= 4
		if fixed {
			// the same places at a general iteration
			g := make([]cval, n)
			for j := range g {
				g[j] = hashV("probe", cInt(int64(j)))
				if lin[j] != nil {
					g[j] = first[j].add(cInt(*lin[j]).mul(IT))
					g[j].num = false
				}
			}
			var idx2 []cval
			ev := env(g, IT).eval(steps[i])
			storedIdx(ev, 0, &idx2)
			bb, ok := bottom(ev, 0)
			fixed = ok && bb.eq(bare(g[i]))
			for _, x := range idx2 {
				in := false
				for _, y := range idx {
					in = in || x.eq(y)
				}
				fixed = fixed && in
			}
		}
		if !fixed {
			continue
		}
		for _, x := range idx {
			c := v.sel(first[i], x)
			c = bare(c)
			for _, h := range hist[1:] {
				c = hashV("then", c, bare(v.sel(h[i], x)))
			}
			cells = append(cells, cell{i, x, c})
		}
	}
	rebuild := func(gen []cval) {
		done := map[int]bool{}
		for _, c := range cells {
			if !done[c.i] {
				done[c.i] = true
				gen[c.i] = first[c.i]
			}
			gen[c.i] = storeV(gen[c.i], c.idx, c.col)
		}
	}
	gen := make([]cval, n)
	for i := range gen {
		if lin[i] != nil {
			gen[i] = first[i].add(cInt(*lin[i]).mul(IT))
			gen[i].num = false
			continue
		}
		gen[i] = col[i]
	}
	rebuild(gen)
	b := env(gen, IT)
	contV := b.eval(cont)
	for r := 0; r < refineN; r++ {
		next := append([]cval{}, gen...)
		for i := range next {
			if lin[i] == nil {
				next[i] = hashV("step", bare(gen[i]), bare(b.eval(steps[i])))
			}
		}
		for j, c := range cells {
			cells[j].col = hashV("step", bare(c.col), bare(v.sel(b.eval(steps[c.i]), c.idx)))
		}
		gen = next
		rebuild(gen)
		b = env(gen, IT)
	}
	contV = hashV("cont", bare(contV), bare(b.eval(cont)))
	if len(exits) > 1 {
		var xs []cval
		for _, x := range exits {
			xs = append(xs, bare(b.eval(x)))
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i].less(xs[j]) })
		contV = hashV("exits", append(xs, contV)...)
	}
	cl := &cloop{it: hashV("exit-it", contV)}
	for i := range gen {
		cl.exits = append(cl.exits, hashV("exit", bare(gen[i]), contV))
	}
	done := map[int]bool{}
	for _, c := range cells {
		if !done[c.i] {
			done[c.i] = true
			cl.exits[c.i] = first[c.i]
		}
		cl.exits[c.i] = storeV(cl.exits[c.i], c.idx, hashV("exit", bare(c.col), contV))
	}
	v.loops[l] = cl
	return cl
}
