package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
)

// ival is the set of values an expression can take: a closed interval and
// whether it may be NaN. Integers use the same representation.
type ival struct {
	lo, hi float64
	nan    bool
}

var (
	inf    = math.Inf(1)
	ivTop  = ival{-inf, inf, true}
	ivReal = ival{-inf, inf, false}
	ivNone = ival{inf, -inf, false}
)

func iv(lo, hi float64) ival { return ival{lo, hi, false} }
func (a ival) empty() bool   { return a.lo > a.hi && !a.nan }
func (a ival) join(b ival) ival {
	return ival{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan}
}
func (a ival) within(b ival) bool {
	if a.lo > a.hi {
		return !a.nan || b.nan
	}
	return a.lo >= b.lo && a.hi <= b.hi && (!a.nan || b.nan)
}
func (a ival) String() string {
	s := fmt.Sprintf("[%g,%g]", a.lo, a.hi)
	if a.lo > a.hi {
		s = "∅"
	}
	if a.nan {
		s += "∪NaN"
	}
	return s
}

// ienv evaluates expressions to intervals under assumptions.
type ienv struct {
	parent *ienv
	over   map[*Expr]ival
	memo   map[*Expr]ival
	src    *isrc
	depth  int
	minID  int
	dirty  map[*Expr]bool // mentions something refined here
	also   []*Expr        // to be looked at here though not refined
	loops  map[*Expr]map[*Expr]ival
}

// touched: the expression mentions something this environment refines, so
// its parent's result does not carry over.
func (v *ienv) touched(e *Expr) bool {
	if e.ID < v.minID {
		return false
	}
	if r, ok := v.dirty[e]; ok {
		return r
	}
	if _, ok := v.over[e]; ok {
		return true
	}
	may := false
	for o := range v.over {
		if o.ID <= e.ID && o.bloom&^e.bloom == 0 {
			may = true
			break
		}
	}
	for _, o := range v.also {
		may = may || o.ID <= e.ID && o.bloom&^e.bloom == 0
	}
	r := false
	if may {
		for _, a := range e.Args {
			if v.touched(a) {
				r = true
				break
			}
		}
	}
	v.dirty[e] = r
	return r
}

type isrc struct {
	cell func(e *Expr, key string) (ival, bool) // a memory cell or array element on entry
	sym  func(e *Expr) ival
	fuel int
}

func newIenv(src *isrc) *ienv {
	return &ienv{over: map[*Expr]ival{}, memo: map[*Expr]ival{}, src: src, loops: map[*Expr]map[*Expr]ival{}}
}

func (v *ienv) with(m map[*Expr]ival) *ienv {
	n := &ienv{parent: v, over: m, memo: map[*Expr]ival{}, src: v.src, depth: v.depth + 1, dirty: map[*Expr]bool{}, loops: map[*Expr]map[*Expr]ival{}, minID: 1 << 60}
	for e := range m {
		if e.ID < n.minID {
			n.minID = e.ID
		}
	}
	return n
}

func (v *ienv) override(e *Expr) (ival, bool) {
	for x := v; x != nil; x = x.parent {
		if r, ok := x.over[e]; ok {
			return r, true
		}
	}
	return ival{}, false
}

// ownerKey names a cell by type and field: "pkg.T.field" and "[]" for elements.
func ownerKey(a *Expr) string {
	suf := ""
	for {
		switch a.Op {
		case "fld":
			T := fldOwner[a]
			if T == nil {
				return ""
			}
			// fields of embedded struct values are named by the outermost named type
			return typeKey(T) + "." + a.Str + suf
		case "in":
			a = a.Args[0]
		case "sel", "elem":
			suf += "[]"
			a = a.Args[0]
		case "A0":
			a = a.Args[0]
		case "arrOf":
			a = a.Args[0]
		case "slice":
			a = a.Args[0]
		case "global":
			return "g:" + a.Str + suf
		default:
			return ""
		}
	}
}

func typeKey(T types.Type) string {
	return strings.TrimPrefix(strings.ReplaceAll(T.String(), modPath+"/", ""), "pkg/")
}

func defaultOf(k byte) ival {
	switch k {
	case 'b':
		return iv(0, 1)
	case 'i':
		return ivReal
	}
	return ivTop
}

func (v *ienv) eval(e *Expr) ival {
	r, ok := v.override(e)
	if ok {
		return r
	}
	if m, ok := v.memo[e]; ok {
		return m
	}
	if v.parent != nil && !v.touched(e) {
		r = v.parent.eval(e)
		v.memo[e] = r
		return r
	}
	if v.src.fuel <= 0 || v.depth > 40 {
		return defaultOf(e.K)
	}
	v.src.fuel--
	r = v.eval1(e)
	if e.K == 'i' {
		r.nan = false
	}
	if e.K == 'f' && !r.empty() && r.lo <= r.hi {
		r.lo, r.hi = float64(float32(r.lo)), float64(float32(r.hi))
	}
	v.memo[e] = r
	return r
}

func mulB(x, y float64) float64 {
	if x == 0 || y == 0 {
		return 0
	}
	return x * y
}

func isInf(a ival) bool { return math.IsInf(a.lo, 0) || math.IsInf(a.hi, 0) }
func (a ival) hasZero() bool {
	return a.lo <= 0 && a.hi >= 0
}

func addI(a, b ival) ival {
	if a.lo > a.hi || b.lo > b.hi {
		return ival{inf, -inf, a.nan || b.nan}
	}
	r := ival{a.lo + b.lo, a.hi + b.hi, a.nan || b.nan}
	if a.hi == inf && b.lo == -inf || a.lo == -inf && b.hi == inf {
		r.nan = true
	}
	if math.IsNaN(r.lo) {
		r.lo = -inf
	}
	if math.IsNaN(r.hi) {
		r.hi = inf
	}
	return r
}

func negI(a ival) ival { return ival{-a.hi, -a.lo, a.nan} }

func mulI(a, b ival) ival {
	if a.lo > a.hi || b.lo > b.hi {
		return ival{inf, -inf, a.nan || b.nan}
	}
	r := ival{inf, -inf, a.nan || b.nan}
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			p := mulB(x, y)
			r.lo, r.hi = math.Min(r.lo, p), math.Max(r.hi, p)
		}
	}
	if a.hasZero() && isInf(b) || b.hasZero() && isInf(a) {
		r.nan = true
	}
	return r
}

func divI(a, b ival) ival {
	if a.lo > a.hi || b.lo > b.hi {
		return ival{inf, -inf, a.nan || b.nan}
	}
	if b.hasZero() {
		n := a.nan || b.nan || a.hasZero() || isInf(a) && isInf(b)
		// a one-sided divisor keeps the sign
		if b.lo == 0 && b.hi > 0 {
			lo, hi := -inf, inf
			if a.lo >= 0 {
				lo = 0
			}
			if a.hi <= 0 {
				hi = 0
			}
			return ival{lo, hi, n}
		}
		return ival{-inf, inf, n}
	}
	r := ival{inf, -inf, a.nan || b.nan || isInf(a) && isInf(b)}
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			var p float64
			if math.IsInf(y, 0) {
				if math.IsInf(x, 0) {
					r.lo, r.hi = math.Min(r.lo, 0), math.Max(r.hi, 0)
					p = x * math.Copysign(1, y)
				} else {
					p = 0
				}
			} else {
				p = x / y
			}
			r.lo, r.hi = math.Min(r.lo, p), math.Max(r.hi, p)
		}
	}
	return r
}

func mono(a ival, f func(float64) float64) ival {
	if a.lo > a.hi {
		return a
	}
	return ival{f(a.lo), f(a.hi), a.nan}
}

// complement recognises b == 1 - a.
func complement(a, b *Expr) bool {
	is := func(x, y *Expr) bool { // x == 1-y
		return x.Op == "-" && x.Args[0].isNum() && x.Args[0].F == 1 && x.Args[1] == y
	}
	return is(a, b) || is(b, a)
}

func factors(e *Expr) []*Expr {
	if e.Op == "*" {
		return e.Args
	}
	return nil
}

func (v *ienv) eval1(e *Expr) ival {
	arg := func(i int) ival { return v.eval(e.Args[i]) }
	switch e.Op {
	case "const":
		switch e.K {
		case 'b':
			if e == eTrue {
				return iv(1, 1)
			}
			return iv(0, 0)
		case 'i', 'f', 'd':
			return iv(e.F, e.F)
		}
		return ivTop
	case "sym":
		return v.src.sym(e)
	case "in":
		if r, ok := v.src.cell(e, ownerKey(e)); ok {
			return r
		}
		return defaultOf(e.K)
	case "sel":
		return v.arr(e.Args[0], e.K)
	case "ite":
		t, f := v.assume(e.Args[0], true), v.assume(e.Args[0], false)
		r := ivNone
		if t != nil {
			r = r.join(t.eval(e.Args[1]))
		}
		if f != nil {
			r = r.join(f.eval(e.Args[2]))
		}
		return r
	case "+":
		// convex combination
		if fa, fb := factors(e.Args[0]), factors(e.Args[1]); fa != nil && fb != nil && e.K != 'i' {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if complement(fa[i], fb[j]) {
						w := v.eval(fa[i])
						if w.within(iv(0, 1)) && v.eval(fb[j]).within(iv(0, 1)) {
							x, y := v.eval(fa[1-i]), v.eval(fb[1-j])
							if !isInf(x) && !isInf(y) {
								return x.join(y)
							}
						}
					}
				}
			}
		}
		// a + (b-a)*t
		for i := 0; i < 2; i++ {
			a, m := e.Args[i], e.Args[1-i]
			if f := factors(m); f != nil && e.K != 'i' {
				for j := 0; j < 2; j++ {
					if f[j].Op == "-" && f[j].Args[1] == a {
						if t := v.eval(f[1-j]); t.within(iv(0, 1)) {
							x, y := v.eval(a), v.eval(f[j].Args[0])
							if !isInf(x) && !isInf(y) {
								return x.join(y)
							}
						}
					}
				}
			}
		}
		return addI(arg(0), arg(1))
	case "-":
		// x - floor(x)
		if f := e.Args[1]; f.Op == "call" && f.Str == "math.Floor" && f.Args[0] == e.Args[0] {
			x := v.eval(e.Args[0])
			return ival{0, 1, x.nan || isInf(x)}
		}
		return addI(arg(0), negI(arg(1)))
	case "*":
		if e.Args[0] == e.Args[1] {
			a := arg(0)
			if a.lo > a.hi {
				return a
			}
			m := math.Max(a.lo*a.lo, a.hi*a.hi)
			l := 0.0
			if a.lo > 0 {
				l = a.lo * a.lo
			} else if a.hi < 0 {
				l = a.hi * a.hi
			}
			return ival{l, m, a.nan}
		}
		return mulI(arg(0), arg(1))
	case "/":
		a, b := arg(0), arg(1)
		if e.K == 'i' {
			if b.lo > 0 && a.lo <= a.hi {
				q := divI(a, b)
				return iv(math.Trunc(q.lo), math.Trunc(q.hi))
			}
			return ivReal
		}
		// x / (k + |x|)
		if d := e.Args[1]; d.Op == "+" {
			for i := 0; i < 2; i++ {
				if ab := d.Args[i]; ab.Op == "call" && ab.Str == "math.Abs" && ab.Args[0] == e.Args[0] && d.Args[1-i].isNum() && d.Args[1-i].F > 0 {
					if !isInf(a) && !a.nan {
						s := func(x float64) float64 { return x / (d.Args[1-i].F + math.Abs(x)) }
						return mono(a, s)
					}
				}
			}
		}
		return divI(a, b)
	case "%":
		a, b := arg(0), arg(1)
		if b.lo >= 1 {
			m := b.hi - 1
			lo := -m
			if a.lo >= 0 {
				lo = 0
			}
			hi := m
			if a.hi <= 0 {
				hi = 0
			}
			return iv(math.Max(lo, math.Min(a.lo, 0)), math.Min(hi, math.Max(a.hi, 0)))
		}
		return ivReal
	case "&":
		a, b := arg(0), arg(1)
		if a.lo >= 0 && b.lo >= 0 {
			return iv(0, math.Min(a.hi, b.hi))
		}
		if a.lo >= 0 {
			return iv(0, a.hi)
		}
		if b.lo >= 0 {
			return iv(0, b.hi)
		}
		return ivReal
	case "|", "^":
		a, b := arg(0), arg(1)
		if a.lo >= 0 && b.lo >= 0 && a.hi < 1<<40 && b.hi < 1<<40 {
			m := math.Max(a.hi, b.hi)
			p := 1.0
			for p <= m {
				p *= 2
			}
			return iv(0, p-1)
		}
		return ivReal
	case "<<":
		a, b := arg(0), arg(1)
		if a.lo >= 0 && b.lo >= 0 && b.hi <= 40 {
			return iv(a.lo*math.Exp2(b.lo), a.hi*math.Exp2(b.hi))
		}
		return ivReal
	case ">>":
		a, b := arg(0), arg(1)
		if a.lo >= 0 && b.lo >= 0 {
			return iv(0, math.Floor(a.hi/math.Exp2(b.lo)))
		}
		return ivReal
	case "max", "min":
		a, b := arg(0), arg(1)
		f := math.Max
		if e.Op == "min" {
			f = math.Min
		}
		if a.lo > a.hi || b.lo > b.hi {
			return ival{inf, -inf, a.nan || b.nan}
		}
		return ival{f(a.lo, b.lo), f(a.hi, b.hi), a.nan || b.nan}
	case "conv":
		a := arg(0)
		switch e.K {
		case 'i':
			r := a
			if e.Args[0].K != 'i' {
				if a.nan || a.lo < -9e18 || a.hi > 9e18 {
					r = ivReal
				} else {
					r = iv(math.Trunc(a.lo), math.Trunc(a.hi))
				}
			}
			if lo, hi, ok := intRange(e.Str); ok && !r.within(iv(lo, hi)) {
				return iv(lo, hi)
			}
			return r
		case 'f', 'd':
			if e.Args[0].K == 'i' || e.Args[0].K == 'f' || e.Args[0].K == 'd' {
				if e.K == 'f' && (a.hi > math.MaxFloat32 || a.lo < -math.MaxFloat32) {
					return ival{a.lo, a.hi, a.nan}
				}
				return a
			}
		}
		return defaultOf(e.K)
	case "len":
		if a := e.Args[0]; a.Op == "in" || a.Op == "sel" {
			if key := ownerKey(a); key != "" {
				if r, ok := v.src.cell(e, key+"#len"); ok {
					return r
				}
			}
		}
		return iv(0, 1<<40)
	case "maplen", "cap", "strlen":
		return iv(0, 1<<40)
	case "un-":
		return negI(arg(0))
	case "call":
		return v.mathCall(e)
	case "loopexit":
		return v.loopVal(e)
	case "struct", "tuple":
		return ivTop
	case "<=", "<", "==":
		return v.cmp(e)
	case "!":
		a := arg(0)
		return iv(1-a.hi, 1-a.lo)
	case "and":
		a, b := arg(0), arg(1)
		return iv(math.Min(a.lo, b.lo), math.Min(a.hi, b.hi))
	case "or":
		a, b := arg(0), arg(1)
		return iv(math.Max(a.lo, b.lo), math.Max(a.hi, b.hi))
	case "someiter", "app":
		return arg(0)
	}
	return defaultOf(e.K)
}

func intRange(t string) (float64, float64, bool) {
	switch t {
	case "uint8", "byte":
		return 0, 255, true
	case "int8":
		return -128, 127, true
	case "uint16":
		return 0, 65535, true
	case "int16":
		return -32768, 32767, true
	case "int32":
		return -2147483648, 2147483647, true
	case "uint32":
		return 0, 4294967295, true
	case "uint", "uint64":
		return 0, 18446744073709551615, true
	}
	return 0, 0, false
}

func (v *ienv) cmp(e *Expr) ival {
	a, b := v.eval(e.Args[0]), v.eval(e.Args[1])
	if a.lo > a.hi || b.lo > b.hi || a.nan || b.nan {
		return iv(0, 1)
	}
	if e.Args[0].K != 'i' && e.Args[0].K != 'f' && e.Args[0].K != 'd' {
		return iv(0, 1)
	}
	switch e.Op {
	case "<=":
		if a.hi <= b.lo {
			return iv(1, 1)
		}
		if a.lo > b.hi {
			return iv(0, 0)
		}
	case "<":
		if a.hi < b.lo {
			return iv(1, 1)
		}
		if a.lo >= b.hi {
			return iv(0, 0)
		}
	case "==":
		if a.lo > b.hi || b.lo > a.hi {
			return iv(0, 0)
		}
	}
	return iv(0, 1)
}

// arr bounds the elements of an array expression.
func (v *ienv) arr(a *Expr, k byte) ival {
	if r, ok := v.override(a); ok {
		return r
	}
	if r, ok := v.memo[a]; ok {
		return r
	}
	if v.parent != nil && !v.touched(a) {
		r := v.parent.arr(a, k)
		v.memo[a] = r
		return r
	}
	v.memo[a] = ivNone // a cycle adds nothing
	r := v.arr1(a, k)
	v.memo[a] = r
	return r
}

func (v *ienv) arr1(a *Expr, k byte) ival {
	switch a.Op {
	case "zero":
		return iv(0, 0)
	case "A0":
		if key := ownerKey(a); key != "" {
			if r, ok := v.src.cell(a, key+"[]"); ok {
				return r
			}
		}
		if a.Args[0].Op == "sym" {
			return v.src.sym(mk("elems", "", k, a.Args[0]))
		}
		return defaultOf(k)
	case "store":
		return v.arr(a.Args[0], k).join(v.eval(a.Args[2]))
	case "fill":
		x := v.eval(a.Args[3])
		if a.Str == "all" {
			return x
		}
		return x.join(v.arr(a.Args[0], k))
	case "copied":
		return v.arr(a.Args[0], k).join(v.arr(a.Args[2], k))
	case "concat":
		return v.arr(a.Args[0], k).join(v.arr(a.Args[2], k))
	case "ite":
		t, f := v.assume(a.Args[0], true), v.assume(a.Args[0], false)
		r := ivNone
		if t != nil {
			r = r.join(t.arr(a.Args[1], k))
		}
		if f != nil {
			r = r.join(f.arr(a.Args[2], k))
		}
		return r
	case "loopexit":
		return v.loopVal(a)
	case "someiter", "app":
		return v.arr(a.Args[0], k)
	}
	return defaultOf(k)
}

func (v *ienv) mathCall(e *Expr) ival {
	if !strings.HasPrefix(e.Str, "math.") {
		if strings.HasPrefix(e.Str, "ext:math/rand.") && strings.Contains(e.Str, "Float64") || strings.HasPrefix(e.Str, "ext:(*math/rand.Rand).Float") {
			return iv(0, math.Nextafter(1, 0))
		}
		return defaultOf(e.K)
	}
	if len(e.Args) == 0 {
		return ivTop
	}
	a := v.eval(e.Args[0])
	bad := a.nan
	dom := func(lo, hi float64) ival { // clip to the domain; outside is NaN
		r := a
		if a.lo < lo || a.hi > hi {
			bad = true
		}
		r.lo, r.hi = math.Max(a.lo, lo), math.Min(a.hi, hi)
		return r
	}
	withNaN := func(r ival) ival { r.nan = r.nan || bad; return r }
	if a.lo > a.hi {
		return a
	}
	switch e.Str {
	case "math.Sin", "math.Cos":
		if a.lo == a.hi && !bad && math.Abs(a.lo) < 1e6 {
			f := math.Sin
			if e.Str == "math.Cos" {
				f = math.Cos
			}
			x := f(a.lo)
			return iv(math.Max(-1, x-1e-9), math.Min(1, x+1e-9))
		}
		return ival{-1, 1, bad || isInf(a)}
	case "math.Tanh":
		return mono(a, math.Tanh)
	case "math.Atan":
		return mono(a, math.Atan)
	case "math.Exp":
		return mono(a, math.Exp)
	case "math.Exp2":
		return mono(a, math.Exp2)
	case "math.Expm1":
		return mono(a, math.Expm1)
	case "math.Cbrt":
		return mono(a, math.Cbrt)
	case "math.Floor":
		return mono(a, math.Floor)
	case "math.Ceil":
		return mono(a, math.Ceil)
	case "math.Round":
		return mono(a, math.Round)
	case "math.Trunc":
		return mono(a, math.Trunc)
	case "math.Sinh":
		return mono(a, math.Sinh)
	case "math.Log", "math.Log2", "math.Log10":
		f := map[string]func(float64) float64{"math.Log": math.Log, "math.Log2": math.Log2, "math.Log10": math.Log10}[e.Str]
		d := dom(0, inf)
		if d.lo > d.hi {
			return ival{inf, -inf, true}
		}
		return withNaN(ival{f(d.lo), f(d.hi), false})
	case "math.Log1p":
		d := dom(-1, inf)
		return withNaN(ival{math.Log1p(d.lo), math.Log1p(d.hi), false})
	case "math.Sqrt":
		d := dom(0, inf)
		if d.lo > d.hi {
			return ival{inf, -inf, true}
		}
		return withNaN(ival{math.Sqrt(d.lo), math.Sqrt(d.hi), false})
	case "math.Asin", "math.Acos":
		dom(-1, 1)
		if e.Str == "math.Asin" {
			return ival{-math.Pi / 2, math.Pi / 2, bad}
		}
		return ival{0, math.Pi, bad}
	case "math.Abs":
		m := math.Max(math.Abs(a.lo), math.Abs(a.hi))
		l := 0.0
		if a.lo > 0 {
			l = a.lo
		} else if a.hi < 0 {
			l = -a.hi
		}
		return ival{l, m, a.nan}
	case "math.Tan":
		if a.lo > -math.Pi/2 && a.hi < math.Pi/2 {
			return ival{math.Tan(a.lo), math.Tan(a.hi), a.nan}
		}
		return ival{-inf, inf, a.nan || isInf(a)}
	case "math.Atan2":
		b := v.eval(e.Args[1])
		return ival{-math.Pi, math.Pi, a.nan || b.nan}
	case "math.Pow":
		b := v.eval(e.Args[1])
		if b.lo > b.hi {
			return b
		}
		n := a.nan || b.nan
		if a.lo >= 0 {
			r := ival{inf, -inf, n}
			for _, x := range []float64{a.lo, a.hi} {
				for _, y := range []float64{b.lo, b.hi} {
					p := math.Pow(x, y)
					r.lo, r.hi = math.Min(r.lo, p), math.Max(r.hi, p)
				}
			}
			if a.lo <= 1 && 1 <= a.hi || b.hasZero() {
				r.lo, r.hi = math.Min(r.lo, 1), math.Max(r.hi, 1)
			}
			return r
		}
		if b.lo == b.hi && b.lo == math.Trunc(b.lo) && b.lo >= 0 {
			m := math.Max(math.Pow(math.Abs(a.lo), b.lo), math.Pow(math.Abs(a.hi), b.lo))
			return ival{-m, m, n}
		}
		return ival{-inf, inf, true}
	case "math.Mod":
		b := v.eval(e.Args[1])
		m := math.Max(math.Abs(b.lo), math.Abs(b.hi))
		r := ival{-m, m, a.nan || b.nan || b.hasZero() || isInf(a)}
		if a.lo >= 0 {
			r.lo = 0
		}
		if a.hi <= 0 {
			r.hi = 0
		}
		return r
	case "math.Copysign":
		m := math.Max(math.Abs(a.lo), math.Abs(a.hi))
		return ival{-m, m, a.nan}
	case "math.Hypot":
		b := v.eval(e.Args[1])
		m := math.Hypot(math.Max(math.Abs(a.lo), math.Abs(a.hi)), math.Max(math.Abs(b.lo), math.Abs(b.hi)))
		return ival{0, m, a.nan || b.nan}
	case "math.Float64frombits", "math.Float32frombits":
		return ivTop
	case "math.Inf":
		return ival{-inf, inf, false}
	case "math.NaN":
		return ival{inf, -inf, true}
	case "math.IsNaN":
		if !a.nan {
			return iv(0, 0)
		}
		return iv(0, 1)
	case "math.IsInf":
		if !isInf(a) {
			return iv(0, 0)
		}
		return iv(0, 1)
	case "math.Signbit":
		return iv(0, 1)
	}
	return defaultOf(e.K)
}

// assume refines the environment by a condition; nil when it cannot hold.
func (v *ienv) assume(c *Expr, truth bool) *ienv {
	if r, ok := v.override(c); ok && r.lo == r.hi {
		if (r.lo == 1) != truth {
			return nil
		}
		return v
	}
	m := map[*Expr]ival{}
	if !v.refine(c, truth, m) {
		return nil
	}
	// a comparison that failed before says more of what is now known to be a
	// number
	var again []*Expr
	for p := v; p != nil; p = p.parent {
		for k, r := range p.over {
			if k.K != 'b' || k.Op != "<" && k.Op != "<=" || r.lo != 0 || r.hi != 0 {
				continue
			}
			for _, a := range k.Args {
				if x, ok := m[a]; ok && !x.nan && v.eval(a).nan {
					again = append(again, k)
					break
				}
			}
		}
	}
	sort.Slice(again, func(i, j int) bool { return again[i].ID < again[j].ID })
	for _, k := range again {
		if !v.refine(k, false, m) {
			return nil
		}
	}
	if truth {
		m[c] = iv(1, 1)
	} else {
		m[c] = iv(0, 0)
	}
	n := v.with(m)
	if !truth && (c.Op == "<" || c.Op == "<=") {
		// what follows may tell that it did not fail on a NaN: it must be
		// looked at here
		for _, a := range c.Args {
			if !a.isConst() && n.dirty != nil {
				n.dirty[a] = true
				n.also = append(n.also, a)
				n.minID = min(n.minID, a.ID)
			}
		}
	}
	return n
}

func (v *ienv) look(e *Expr, m map[*Expr]ival) ival {
	if r, ok := m[e]; ok {
		return r
	}
	return v.eval(e)
}

// refine records in m what the condition says; false when contradictory.
func (v *ienv) refine(c *Expr, truth bool, m map[*Expr]ival) bool {
	switch c.Op {
	case "const":
		return (c == eTrue) == truth
	case "!":
		return v.refine(c.Args[0], !truth, m)
	case "and":
		if truth {
			return v.refineAll(together(c, true, nil), m)
		}
		// not(a and b): when one is known, the other is refuted
		return v.refineOr([]*Expr{notE(c.Args[0]), notE(c.Args[1])}, m)
	case "or":
		if !truth {
			return v.refineAll(together(c, false, nil), m)
		}
		return v.refineOr([]*Expr{c.Args[0], c.Args[1]}, m)
	case "call":
		if c.Str == "math.IsNaN" {
			x := v.look(c.Args[0], m)
			if truth {
				if !x.nan {
					return false
				}
				m[c.Args[0]] = ival{inf, -inf, true}
			} else {
				x.nan = false
				m[c.Args[0]] = x
				return !x.empty()
			}
		}
		if c.Str == "math.IsInf" && !truth {
			x := v.look(c.Args[0], m)
			if c.Args[1] == constI(0) || c.Args[1] == constI(1) {
				x.hi = math.Min(x.hi, math.MaxFloat64)
			}
			if c.Args[1] == constI(0) || c.Args[1] == constI(-1) {
				x.lo = math.Max(x.lo, -math.MaxFloat64)
			}
			m[c.Args[0]] = x
		}
		return true
	case "<=", "<", "==":
		a, b := c.Args[0], c.Args[1]
		if a.K != 'i' && a.K != 'f' && a.K != 'd' {
			return true
		}
		x, y := v.look(a, m), v.look(b, m)
		isInt := a.K == 'i'
		if truth {
			x.nan, y.nan = false, false
			switch c.Op {
			case "==":
				lo, hi := math.Max(x.lo, y.lo), math.Min(x.hi, y.hi)
				x.lo, x.hi, y.lo, y.hi = lo, hi, lo, hi
			default:
				st := c.Op == "<"
				x.hi = math.Min(x.hi, below(y.hi, st, isInt, a.K))
				y.lo = math.Max(y.lo, above(x.lo, st, isInt, a.K))
			}
			if x.lo > x.hi || y.lo > y.hi {
				return false
			}
			return v.put(a, x, m) && v.put(b, y, m)
		}
		if x.nan || y.nan {
			// the comparison may have failed on a NaN
			return true
		}
		switch c.Op {
		case "==":
			// a boundary value is cut off
			if y.lo == y.hi {
				if x.lo == y.lo {
					x.lo = above(x.lo, true, isInt, a.K)
				}
				if x.hi == y.lo {
					x.hi = below(x.hi, true, isInt, a.K)
				}
			} else if x.lo == x.hi {
				if y.lo == x.lo {
					y.lo = above(y.lo, true, isInt, a.K)
				}
				if y.hi == x.lo {
					y.hi = below(y.hi, true, isInt, a.K)
				}
			}
		case "<=": // a > b
			x.lo = math.Max(x.lo, above(y.lo, true, isInt, a.K))
			y.hi = math.Min(y.hi, below(x.hi, true, isInt, a.K))
		case "<": // a >= b
			x.lo = math.Max(x.lo, y.lo)
			y.hi = math.Min(y.hi, x.hi)
		}
		if x.lo > x.hi || y.lo > y.hi {
			return false
		}
		return v.put(a, x, m) && v.put(b, y, m)
	}
	r := v.eval(c)
	if r.lo == r.hi && !r.nan {
		return (r.lo == 1) == truth
	}
	return true
}

// together lists what holds when a conjunction is true, or when a
// disjunction is false.
func together(c *Expr, truth bool, out []*Expr) []*Expr {
	switch {
	case c.Op == "!":
		return together(c.Args[0], !truth, out)
	case c.Op == "and" && truth, c.Op == "or" && !truth:
		return together(c.Args[1], truth, together(c.Args[0], truth, out))
	case truth:
		return append(out, c)
	}
	return append(out, notE(c))
}

// refineAll takes facts together: what a later one rules out (NaN, say) can
// make an earlier one say more, so they are read twice.
func (v *ienv) refineAll(cs []*Expr, m map[*Expr]ival) bool {
	for pass := 0; pass < 2; pass++ {
		for _, c := range cs {
			if !v.refine(c, true, m) {
				return false
			}
		}
	}
	return true
}

func below(x float64, strict, isInt bool, k byte) float64 {
	if !strict || math.IsInf(x, 0) {
		return x
	}
	if isInt {
		return x - 1
	}
	if k == 'f' {
		return float64(math.Nextafter32(float32(x), float32(math.Inf(-1))))
	}
	return math.Nextafter(x, -inf)
}
func above(x float64, strict, isInt bool, k byte) float64 {
	if !strict || math.IsInf(x, 0) {
		return x
	}
	if isInt {
		return x + 1
	}
	if k == 'f' {
		return float64(math.Nextafter32(float32(x), float32(math.Inf(1))))
	}
	return math.Nextafter(x, inf)
}

func (v *ienv) refineOr(alts []*Expr, m map[*Expr]ival) bool {
	var ms []map[*Expr]ival
	for _, a := range alts {
		mm := map[*Expr]ival{}
		for k, x := range m {
			mm[k] = x
		}
		if v.refine(a, true, mm) {
			ms = append(ms, mm)
		}
	}
	if len(ms) == 0 {
		return false
	}
	if len(ms) == 1 {
		for k, x := range ms[0] {
			m[k] = x
		}
		return true
	}
	for k, x := range ms[0] {
		if y, ok := ms[1][k]; ok {
			m[k] = x.join(y)
		}
	}
	return true
}

// put records a refined value and passes it down through simple operations.
func (v *ienv) put(e *Expr, x ival, m map[*Expr]ival) bool {
	if e.isConst() {
		return true
	}
	m[e] = x
	switch e.Op {
	case "conv":
		a := e.Args[0]
		if a.K == 'i' && e.K != 'i' {
			y := v.look(a, m)
			y.lo, y.hi = math.Max(y.lo, math.Ceil(x.lo)), math.Min(y.hi, math.Floor(x.hi))
			if y.lo > y.hi {
				return false
			}
			return v.put(a, y, m)
		}
		if a.K == 'f' && e.K == 'd' {
			y := v.look(a, m)
			y.lo, y.hi, y.nan = math.Max(y.lo, x.lo), math.Min(y.hi, x.hi), y.nan && x.nan
			return v.put(a, y, m)
		}
	case "+":
		if e.K == 'i' && e.Args[1].isNum() {
			c := e.Args[1].F
			y := v.look(e.Args[0], m)
			y.lo, y.hi = math.Max(y.lo, x.lo-c), math.Min(y.hi, x.hi-c)
			if y.lo > y.hi {
				return false
			}
			return v.put(e.Args[0], y, m)
		}
	case "-":
		if e.K != 'i' {
			break
		}
		if e.Args[0].isNum() {
			c := e.Args[0].F
			y := v.look(e.Args[1], m)
			y.lo, y.hi = math.Max(y.lo, c-x.hi), math.Min(y.hi, c-x.lo)
			if y.lo > y.hi {
				return false
			}
			return v.put(e.Args[1], y, m)
		}
	case "call":
		if e.Str == "math.Abs" && x.hi < inf {
			y := v.look(e.Args[0], m)
			y.lo, y.hi, y.nan = math.Max(y.lo, -x.hi), math.Min(y.hi, x.hi), y.nan && x.nan
			if y.lo > y.hi && !y.nan {
				return false
			}
			return v.put(e.Args[0], y, m)
		}
	}
	return true
}

var widenSteps = []float64{0, 1, 2, 4, 10, 16, 100, 128, 1000, 1 << 16, 1e9, inf}

func widen(old, nw ival) ival {
	r := old.join(nw)
	if old.lo > old.hi {
		return r
	}
	if r.hi > old.hi {
		for _, t := range append([]float64{-1000, -100, -10, -1}, widenSteps...) {
			if t >= r.hi {
				r.hi = t
				break
			}
		}
	}
	if r.lo < old.lo {
		for _, t := range append([]float64{-1000, -100, -10, -1}, widenSteps...) {
			if -t <= r.lo {
				r.lo = -t
				break
			}
		}
	}
	return r
}

func loopParts(l *Expr) (n int, inits, bvs, steps []*Expr, cont *Expr, exits []*Expr) {
	fmt.Sscanf(l.Str[strings.Index(l.Str, ":")+1:], "%d", &n)
	a := l.Args
	return n, a[:n], a[n : 2*n], a[2*n : 3*n], a[3*n], a[3*n+1:]
}

// loopFix bounds the recurrence variables of a loop at its head.
func (v *ienv) loopFix(l *Expr) map[*Expr]ival {
	if r, ok := v.loops[l]; ok {
		return r
	}
	var r map[*Expr]ival
	if v.parent != nil && !v.touched(l) {
		r = v.parent.loopFix(l)
	} else {
		r = v.loopFix1(l)
	}
	v.loops[l] = r
	return r
}

// loopFixInts bounds only the integer recurrences of a loop; the others can be
// anything.
func (v *ienv) loopFixInts(l *Expr) map[*Expr]ival {
	n, inits, bvs, steps, cont, _ := loopParts(l)
	cur := map[*Expr]ival{}
	for i := 0; i < n; i++ {
		if bvs[i].K == 'i' {
			cur[bvs[i]] = v.eval(inits[i])
		} else {
			k := bvs[i].K
			if k == 'o' {
				k = 'd'
			}
			cur[bvs[i]] = defaultOf(k)
		}
	}
	for round := 0; round < 40; round++ {
		body := v.with(copyIv(cur)).assume(cont, true)
		if body == nil {
			return cur
		}
		changed := false
		for i := 0; i < n; i++ {
			if bvs[i].K != 'i' {
				continue
			}
			nw := cur[bvs[i]].join(body.eval(steps[i]))
			if nw != cur[bvs[i]] {
				changed = true
				if round >= 2 {
					nw = widen(cur[bvs[i]], nw)
				}
				cur[bvs[i]] = nw
			}
		}
		if !changed {
			return cur
		}
	}
	for i := 0; i < n; i++ {
		if bvs[i].K == 'i' {
			cur[bvs[i]] = defaultOf('i')
		}
	}
	return cur
}

func (v *ienv) loopFix1(l *Expr) map[*Expr]ival {
	n, inits, bvs, steps, _, _ := loopParts(l)
	cur := map[*Expr]ival{}
	kind := func(i int) byte {
		if bvs[i].K == 'o' {
			return 'd'
		}
		return bvs[i].K
	}
	ev := func(x *ienv, e *Expr, i int) ival {
		if bvs[i].K == 'o' {
			return x.arr(e, kind(i))
		}
		return x.eval(e)
	}
	for i := 0; i < n; i++ {
		cur[bvs[i]] = ev(v, inits[i], i)
	}
	for round := 0; ; round++ {
		env := v.with(copyIv(cur))
		_, _, _, _, cont, _ := loopParts(l)
		body := env.assume(cont, true)
		if body == nil {
			return cur
		}
		changed := false
		for i := 0; i < n; i++ {
			nw := cur[bvs[i]].join(ev(body, steps[i], i))
			if nw != cur[bvs[i]] {
				changed = true
				if round >= 2 {
					nw = widen(cur[bvs[i]], nw)
				}
				cur[bvs[i]] = nw
			}
		}
		if !changed {
			break
		}
		if round > 40 || v.src.fuel <= 0 {
			for i := 0; i < n; i++ {
				cur[bvs[i]] = defaultOf(kind(i))
			}
			return cur
		}
	}
	// one descending pass recovers what widening lost
	for round := 0; round < 2; round++ {
		env := v.with(copyIv(cur))
		_, _, _, _, cont, _ := loopParts(l)
		body := env.assume(cont, true)
		if body == nil {
			break
		}
		next := map[*Expr]ival{}
		for i := 0; i < n; i++ {
			next[bvs[i]] = ev(v, inits[i], i).join(ev(body, steps[i], i))
		}
		cur = next
	}
	return cur
}

func copyIv(m map[*Expr]ival) map[*Expr]ival {
	r := make(map[*Expr]ival, len(m))
	for k, x := range m {
		r[k] = x
	}
	return r
}

func (v *ienv) loopVal(e *Expr) ival {
	l := e.Args[0]
	n, _, bvs, _, _, exits := loopParts(l)
	var idx int
	if _, err := fmt.Sscanf(e.Str, "%d", &idx); err != nil || idx >= n {
		return defaultOf(e.K)
	}
	fix := v.loopFix(l)
	if len(exits) == 1 && bvs[idx].K != 'o' {
		x := v.with(copyIv(fix)).assume(exits[0], true)
		if x == nil {
			return ivNone
		}
		return x.eval(bvs[idx])
	}
	return fix[bvs[idx]]
}
