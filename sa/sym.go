package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Expr is a hash-consed symbolic value: two computations that build the same
// Expr compute the same value. Memory is an array theory over addresses.
type Expr struct {
	ID   int
	Op   string
	Str  string
	K    byte // b bool, i integer, f float32, d float64, s string, o other
	Args []*Expr
	// constants
	F float64
	I int64

	bound bool    // mentions a free loop variable
	free  []*Expr // which ones, by ID
	depth int     // of a bv: the loop nesting it belongs to
	bloom uint64  // of the leaves below
	vars  uint64  // of the leaves below that are no numbers
	size  int
}

type exprTab struct {
	m map[string]*Expr
	n int
}

var tab = &exprTab{m: map[string]*Expr{}}

func mk(op, str string, k byte, args ...*Expr) *Expr {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(str)
	sb.WriteByte('|')
	sb.WriteByte(k)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	key := sb.String()
	if e := tab.m[key]; e != nil {
		return e
	}
	tab.n++
	e := &Expr{ID: tab.n, Op: op, Str: str, K: k, Args: args, size: 1}
	if len(args) == 0 {
		e.bloom = 1 << (uint(e.ID*2654435761>>7) % 64)
		if op != "const" {
			e.vars = e.bloom
		}
	}
	for _, a := range args {
		e.bloom |= a.bloom
		e.vars |= a.vars
		e.size += a.size
		if e.size > 1<<30 {
			e.size = 1 << 30
		}
		for _, b := range a.free {
			if !boundBy(e, b) {
				e.free = addFree(e.free, b)
			}
		}
	}
	if op == "bv" {
		e.depth, _ = strconv.Atoi(strings.Split(strings.TrimLeft(str, "φμit•"), ".")[0])
		e.free = []*Expr{e}
	}
	e.bound = len(e.free) > 0
	tab.m[key] = e
	return e
}

// boundBy: e closes over the loop variable b. A loop closes over those of its
// own depth and deeper, a fill over its hole.
func boundBy(e, b *Expr) bool {
	switch e.Op {
	case "loop":
		ld, _ := strconv.Atoi(strings.Split(e.Str, ":")[0])
		return b.depth >= ld
	case "fill":
		return b == e.Args[4]
	}
	return false
}

func addFree(fs []*Expr, b *Expr) []*Expr {
	i := sort.Search(len(fs), func(i int) bool { return fs[i].ID >= b.ID })
	if i < len(fs) && fs[i] == b {
		return fs
	}
	out := make([]*Expr, 0, len(fs)+1)
	out = append(out, fs[:i]...)
	out = append(out, b)
	return append(out, fs[i:]...)
}

func (e *Expr) hasFree(b *Expr) bool {
	for _, f := range e.free {
		if f == b {
			return true
		}
	}
	return false
}

func constF(f float64, k byte) *Expr {
	if k == 'f' {
		f = float64(float32(f))
	}
	if f == 0 {
		f = 0 // drop the sign of zero
	}
	e := mk("const", strconv.FormatFloat(f, 'g', -1, 64), k)
	e.F = f
	return e
}
func constI(i int64) *Expr {
	e := mk("const", strconv.FormatInt(i, 10), 'i')
	e.I = i
	e.F = float64(i)
	return e
}
func constB(b bool) *Expr { return mk("const", strconv.FormatBool(b), 'b') }
func sym(name string, k byte) *Expr {
	return mk("sym", name, k)
}

var (
	eTrue  = constB(true)
	eFalse = constB(false)
	eNil   = mk("const", "nil", 'o')
	eZeroA = mk("zero", "", 'o') // an array all of whose elements are zero
)

func (e *Expr) isConst() bool { return e.Op == "const" }
func (e *Expr) isNum() bool {
	return e.Op == "const" && (e.K == 'i' || e.K == 'f' || e.K == 'd')
}

// isNaN is whether it is the number math.NaN gives.
func (e *Expr) isNaN() bool {
	for e.Op == "conv" && (e.K == 'f' || e.K == 'd') && len(e.Args) == 1 {
		e = e.Args[0]
	}
	return e.Op == "call" && e.Str == "math.NaN"
}

func notE(c *Expr) *Expr {
	switch {
	case c == eTrue:
		return eFalse
	case c == eFalse:
		return eTrue
	case c.Op == "!":
		return c.Args[0]
	}
	// for integers the complement of a comparison is a comparison
	if (c.Op == "<" || c.Op == "<=") && c.Args[0].K == 'i' && c.Args[1].K == 'i' {
		if c.Op == "<" {
			return mk("<=", "", 'b', c.Args[1], c.Args[0])
		}
		return mk("<", "", 'b', c.Args[1], c.Args[0])
	}
	return mk("!", "", 'b', c)
}

func andE(a, b *Expr) *Expr {
	switch {
	case a == eTrue:
		return b
	case b == eTrue:
		return a
	case a == eFalse || b == eFalse:
		return eFalse
	case a == b:
		return a
	case a == notE(b):
		return eFalse
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("and", "", 'b', a, b)
}

func orE(a, b *Expr) *Expr {
	switch {
	case a == eFalse:
		return b
	case b == eFalse:
		return a
	case a == eTrue || b == eTrue:
		return eTrue
	case a == b:
		return a
	case a == notE(b):
		return eTrue
	}
	if a.Op == "and" && b.Op == "and" { // (x&y)|(x&!y)
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.Args[i] == b.Args[j] && a.Args[1-i] == notE(b.Args[1-j]) {
					return a.Args[i]
				}
			}
		}
	}
	if a.Op == "and" && (a.Args[0] == notE(b) || a.Args[1] == notE(b)) {
		o := a.Args[0]
		if o == notE(b) {
			o = a.Args[1]
		}
		return orE(o, b)
	}
	if b.Op == "and" && (b.Args[0] == notE(a) || b.Args[1] == notE(a)) {
		o := b.Args[0]
		if o == notE(a) {
			o = b.Args[1]
		}
		return orE(a, o)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("or", "", 'b', a, b)
}

// withoutConj is the conjunction e without its part x.
func withoutConj(e, x *Expr) *Expr {
	switch {
	case e == x:
		return eTrue
	case e.Op == "and":
		l, r := withoutConj(e.Args[0], x), withoutConj(e.Args[1], x)
		if l != e.Args[0] || r != e.Args[1] {
			return andE(l, r)
		}
	}
	return e
}

func iteE(c, a, b *Expr) *Expr {
	switch {
	case c == eTrue:
		return a
	case c == eFalse:
		return b
	case a == b:
		return a
	}
	if c.Op == "!" {
		return iteE(c.Args[0], b, a)
	}
	if a.K == 'b' {
		switch {
		case a == eTrue && b == eFalse:
			return c
		case a == eFalse && b == eTrue:
			return notE(c)
		case a == eTrue:
			return orE(c, b)
		case b == eFalse:
			return andE(c, a)
		case a == eFalse:
			return andE(notE(c), b)
		case b == eTrue:
			return orE(notE(c), a)
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args) {
		as := make([]*Expr, len(a.Args))
		for i := range as {
			as[i] = iteE(c, a.Args[i], b.Args[i])
		}
		return mk("struct", a.Str, 'o', as...)
	}
	// what already failed is not asked again
	if b.Op == "ite" {
		if r := withoutConj(b.Args[0], notE(c)); r != b.Args[0] {
			return iteE(c, a, iteE(r, b.Args[1], b.Args[2]))
		}
	}
	// x kept between L and K: the lower end first
	if c.Op == "<" && c.Args[0].isNum() && a == c.Args[0] && b.Op == "ite" && b.Args[2] == c.Args[1] {
		if d := b.Args[0]; d.Op == "<" && d.Args[0] == c.Args[1] && d.Args[1].isNum() && b.Args[1] == d.Args[1] && d.Args[1].F <= a.F && a.K != 'i' {
			return mk("ite", "", a.K, d, b.Args[1], mk("ite", "", a.K, c, a, b.Args[2]))
		}
	}
	// two pieces of one list
	if a.Op == "slice" && (b.Op == "slice" && a.Args[0] == b.Args[0] || a.Args[0] == b) || b.Op == "slice" && b.Args[0] == a {
		lo := func(s *Expr) *Expr {
			if s.Op == "slice" {
				return s.Args[1]
			}
			return constI(0)
		}
		hi := func(s *Expr) *Expr {
			if s.Op == "slice" {
				return s.Args[2]
			}
			return lenE(s)
		}
		r := a
		if a.Op == "slice" {
			r = a.Args[0]
		}
		return mk("slice", "", 'o', r, iteE(c, lo(a), lo(b)), iteE(c, hi(a), hi(b)))
	}
	// ite(x == y, x, y) = y
	if c.Op == "==" && a.K == 'i' && (c.Args[0] == a && c.Args[1] == b || c.Args[0] == b && c.Args[1] == a) {
		return b
	}
	// ite(c1, x, ite(c2, x, y)) = ite(c1|c2, x, y)
	if b.Op == "ite" && b.Args[1] == a {
		return iteE(orE(c, b.Args[0]), a, b.Args[2])
	}
	return mk("ite", "", a.K, c, a, b)
}

func commut(op string) bool {
	return op == "+" || op == "*" || op == "==" || op == "!=" || op == "&" || op == "|" || op == "^" || op == "max" || op == "min"
}

// unsignedE: the values of unsigned type that are read, not computed.
var unsignedE = map[*Expr]bool{}

func isUnsigned(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func markUnsigned(e *Expr, T types.Type) {
	if !isUnsigned(T) {
		return
	}
	switch e.Op {
	case "sym", "sel", "in", "conv", "call", "ex":
		unsignedE[e] = true
	case "ite":
		markUnsigned(e.Args[1], T)
		markUnsigned(e.Args[2], T)
	}
}

func binE(op string, k byte, a, b *Expr) *Expr {
	switch op {
	case ">":
		return binE("<", k, b, a)
	case ">=":
		return binE("<=", k, b, a)
	}
	cmp := op == "<" || op == "<=" || op == "==" || op == "!="
	if op == "<" && unsignedE[a] && b.isNum() && b.I == 0 {
		return eFalse
	}
	if op == "<=" && unsignedE[b] && a.isNum() && a.I == 0 {
		return eTrue
	}
	if op == "!=" {
		return notE(binE("==", k, a, b))
	}
	if a.isNum() && b.isNum() && a.K == b.K {
		if a.K == 'i' {
			x, y := a.I, b.I
			switch op {
			case "+":
				return constI(x + y)
			case "-":
				return constI(x - y)
			case "*":
				return constI(x * y)
			case "/":
				if y != 0 {
					return constI(x / y)
				}
			case "%":
				if y != 0 {
					return constI(x % y)
				}
			case "<<":
				if y >= 0 && y < 63 {
					return constI(x << uint(y))
				}
			case ">>":
				if y >= 0 && y < 63 {
					return constI(x >> uint(y))
				}
			case "&":
				return constI(x & y)
			case "|":
				return constI(x | y)
			case "^":
				return constI(x ^ y)
			case "&^":
				return constI(x &^ y)
			case "max":
				return constI(max(x, y))
			case "min":
				return constI(min(x, y))
			case "<":
				return constB(x < y)
			case "<=":
				return constB(x <= y)
			case "==":
				return constB(x == y)
			}
		} else {
			x, y := a.F, b.F
			switch op {
			case "+":
				return constF(x+y, k)
			case "-":
				return constF(x-y, k)
			case "*":
				return constF(x*y, k)
			case "/":
				if y != 0 {
					return constF(x/y, k)
				}
			case "<":
				return constB(x < y)
			case "<=":
				return constB(x <= y)
			case "==":
				return constB(x == y)
			case "max":
				return constF(math.Max(x, y), k)
			case "min":
				return constF(math.Min(x, y), k)
			}
		}
	}
	if (op == "min" || op == "max") && a == b {
		return a
	}
	if a.K == 'i' && b.K == 'i' && (a.Op == "ite" && b.isNum() || b.Op == "ite" && a.isNum()) {
		if a.Op == "ite" && constLeaves(a) <= 8 {
			return iteE(a.Args[0], binE(op, k, a.Args[1], b), binE(op, k, a.Args[2], b))
		}
		if b.Op == "ite" && constLeaves(b) <= 8 {
			return iteE(b.Args[0], binE(op, k, a, b.Args[1]), binE(op, k, a, b.Args[2]))
		}
	}
	if op == "==" && a == b && a.K != 'f' && a.K != 'd' {
		return eTrue
	}
	// one bit of x is that bit, or not there
	if op == "==" && a.K == 'i' {
		for _, p := range [2][2]*Expr{{a, b}, {b, a}} {
			if n := p[0]; n.isNum() && n.I > 1 && n.I&(n.I-1) == 0 && p[1].Op == "&" && (p[1].Args[0] == n || p[1].Args[1] == n) {
				return notE(binE("==", k, p[1], constI(0)))
			}
		}
	}
	if op == "<=" && a == b && a.K == 'i' {
		return eTrue
	}
	if op == "<" && a == b {
		return eFalse
	}
	if op == "==" && a.isConst() && b.isConst() && a.K == b.K && a.K != 'o' && a != b {
		return eFalse
	}
	if op == "==" && a.K == 's' {
		if r := overArms(a, func(x *Expr) *Expr {
			return overArms(b, func(y *Expr) *Expr { return textEq(x, y) })
		}); r != nil {
			return r
		}
	}
	if op == "+" && k == 's' {
		if a.Op == "ite" || b.Op == "ite" {
			return overAll([]*Expr{a, b}, 0, func(es []*Expr) *Expr { return catE(es...) })
		}
		return catE(a, b)
	}
	if cmp && (a.isNaN() || b.isNaN()) {
		return eFalse
	}
	if (op == "<" || op == "<=") && k == 'b' {
		// a known number lies between the infinities
		var inf func(e *Expr, s float64) bool
		inf = func(e *Expr, s float64) bool {
			if e.Op == "-" && e.Args[0].isNum() {
				return inf(e.Args[1], -s)
			}
			return e.Op == "call" && e.Str == "math.Inf" && len(e.Args) == 1 && e.Args[0].isNum() && (e.Args[0].I >= 0) == (s > 0)
		}
		switch {
		case a.isNum() && inf(b, 1), b.isNum() && inf(a, -1):
			return eTrue
		case a.isNum() && inf(b, -1), b.isNum() && inf(a, 1):
			return eFalse
		// and nothing lies beyond them
		case op == "<=" && (inf(a, -1) || inf(b, 1)):
			return eTrue
		case op == "<" && (inf(a, 1) || inf(b, -1)):
			return eFalse
		}
	}
	if op == "==" && a.K == 's' && (a.Op == "strof" || b.Op == "strof") {
		if a.Op != "strof" {
			a, b = b, a
		}
		if t, ok := constStr(b); ok {
			if len(t) != len(a.Args) {
				return eFalse
			}
			r := eTrue
			for i := len(t) - 1; i >= 0; i-- {
				r = iteE(binE("==", 'b', a.Args[i], constI(int64(t[i]))), r, eFalse)
			}
			return r
		}
	}
	if op == "==" && a.Op == "iface" && b.Op == "iface" && a.Str != b.Str {
		return eFalse
	}
	if op == "==" && a.K == 'o' && a.Op == "store" && b.Op == "store" {
		// arrays with different constants at one place
		at := func(e *Expr) map[int64]*Expr {
			m := map[int64]*Expr{}
			for ; e.Op == "store"; e = e.Args[0] {
				i := e.Args[1]
				if !i.isNum() {
					return m
				}
				if _, ok := m[i.I]; !ok {
					m[i.I] = e.Args[2]
				}
			}
			return m
		}
		ma, mb := at(a), at(b)
		for i, x := range ma {
			if y := mb[i]; y != nil && x.isNum() && y.isNum() && x.K == 'i' && y.K == 'i' && x.I != y.I {
				return eFalse
			}
		}
	}
	if op == "==" && (a == eNil && b.isNum() && b.K == 'i' || b == eNil && a.isNum() && a.K == 'i') {
		return constB(a.isNum() && a.I == 0 || b.isNum() && b.I == 0) // an address made of a number
	}
	if op == "==" && a.K == 'o' {
		if nonNil(a) && b == eNil || nonNil(b) && a == eNil {
			return eFalse
		}
	}
	if op == "==" && a.K == 'b' {
		switch {
		case a == eTrue:
			return b
		case b == eTrue:
			return a
		case a == eFalse:
			return notE(b)
		case b == eFalse:
			return notE(a)
		}
	}
	if !cmp {
		switch {
		case (op == "*" || op == "/") && b.isNum() && b.F == 1:
			return a
		case op == "*" && a.isNum() && a.F == 1:
			return b
		case (op == "+" || op == "-") && b.isNum() && b.F == 0:
			return a
		case op == "+" && a.isNum() && a.F == 0:
			return b
		case op == "*" && k == 'i' && (a.isNum() && a.I == 0 || b.isNum() && b.I == 0):
			return constI(0)
		case op == "*" && a.isNum() && a.F == 0 && finiteE(b, 12), op == "*" && b.isNum() && b.F == 0 && finiteE(a, 12):
			return constF(0, k)
		}
		if k == 'i' {
			if op == "-" && a == b {
				return constI(0)
			}
			// constants gather on the right of a sum
			if op == "-" && b.isNum() {
				return binE("+", k, a, constI(-b.I))
			}
			if op == "+" && a.isNum() {
				a, b = b, a
			}
			if op == "+" && b.isNum() && a.Op == "+" && a.Args[1].isNum() {
				return binE("+", k, a.Args[0], constI(a.Args[1].I+b.I))
			}
			if op == "+" && a.Op == "+" && a.Args[1].isNum() && !b.isNum() {
				return binE("+", k, binE("+", k, a.Args[0], b), a.Args[1])
			}
			if op == "+" && b.Op == "+" && b.Args[1].isNum() && !a.isNum() {
				return binE("+", k, binE("+", k, a, b.Args[0]), b.Args[1])
			}
			if op == "-" && a.Op == "+" && a.Args[1].isNum() {
				return binE("+", k, binE("-", k, a.Args[0], b), a.Args[1])
			}
			if op == "-" && b.Op == "+" && b.Args[1].isNum() {
				return binE("+", k, binE("-", k, a, b.Args[0]), constI(-b.Args[1].I))
			}
			// (a+b)-b, (a-b)+b
			if op == "-" && a.Op == "+" {
				if a.Args[0] == b {
					return a.Args[1]
				}
				if a.Args[1] == b {
					return a.Args[0]
				}
			}
			if op == "+" && a.Op == "-" && a.Args[1] == b {
				return a.Args[0]
			}
			if op == "+" && b.Op == "-" && b.Args[1] == a {
				return b.Args[0]
			}
		}
	}
	if commut(op) && a.ID > b.ID && !(op == "+" && k == 'i' && b.isNum()) {
		a, b = b, a
		if op == "+" && k == 'i' && a.isNum() {
			a, b = b, a
		}
	}
	if cmp {
		if a.K == 'i' && b.K == 'i' && op != "==" {
			// x+c < y  compared on one side
			if op == "<" { // a < b  ==  a+1 <= b
				return binE("<=", 'b', binE("+", 'i', a, constI(1)), b)
			}
			if a.Op == "+" && a.Args[1].isNum() && b.isNum() {
				return binE("<=", 'b', a.Args[0], constI(b.I-a.Args[1].I))
			}
			if b.Op == "+" && b.Args[1].isNum() {
				return binE("<=", 'b', binE("+", 'i', a, constI(-b.Args[1].I)), b.Args[0])
			}
		}
		k = 'b'
	}
	return mk(op, "", k, a, b)
}

// finiteE: made of numbers by operations that keep them finite (constants here are
// far from the ends of their ranges).
func finiteE(e *Expr, d int) bool {
	if d == 0 || e.K != 'f' && e.K != 'd' {
		return false
	}
	switch e.Op {
	case "const":
		return e.isNum() && math.Abs(e.F) < 1e15
	case "+", "-", "max", "min":
		return finiteE(e.Args[0], d-1) && finiteE(e.Args[1], d-1)
	case "call":
		return (e.Str == "math.Sin" || e.Str == "math.Cos") && len(e.Args) == 1 && finiteE(e.Args[0], d-1)
	case "convfloat32", "convfloat64":
		return finiteE(e.Args[0], d-1)
	}
	return false
}

// argsNonNil: pointer arguments are taken to point to something.
var argsNonNil bool

func nonNil(e *Expr) bool {
	switch e.Op {
	case "obj", "make", "fld", "elem", "closure", "iface", "append", "makemap":
		return true
	case "sym":
		if argsNonNil && strings.HasPrefix(e.Str, "a") {
			if _, t, _ := strings.Cut(e.Str, "#"); strings.HasPrefix(t, "*") {
				return true
			}
		}
		return strings.HasPrefix(e.Str, "recv")
	case "call":
		return e.Str == "fmt.Errorf" || e.Str == "errors.New"
	case "slice":
		return nonNil(e.Args[0])
	}
	return false
}

// render prints an expression for people, cut at a depth.
func (e *Expr) String() string { return e.render(6) }

func (e *Expr) render(d int) string {
	if d == 0 {
		return "…"
	}
	arg := func(i int) string { return e.Args[i].render(d - 1) }
	switch e.Op {
	case "sym":
		s, _, _ := strings.Cut(e.Str, "#")
		return s
	case "const", "bv":
		return e.Str
	case "in":
		return strings.TrimPrefix(e.Args[0].render(d), "&")
	case "fld":
		return strings.TrimPrefix(arg(0), "&") + "." + e.Str
	case "elem":
		return strings.TrimPrefix(arg(0), "&") + "[" + arg(1) + "]"
	case "sel":
		return arg(0) + "[" + arg(1) + "]"
	case "A0":
		return arg(0)
	case "obj", "make":
		return e.Op + e.Str
	case "ite":
		return "(" + arg(0) + " ? " + arg(1) + " : " + arg(2) + ")"
	case "!":
		return "!" + arg(0)
	case "loopexit":
		return "after-loop(" + e.Str + ")"
	}
	if len(e.Args) == 2 && !strings.ContainsAny(e.Op[:1], "abcdefghijklmnopqrstuvwxyz") {
		return "(" + arg(0) + e.Op + arg(1) + ")"
	}
	var as []string
	for i := range e.Args {
		as = append(as, arg(i))
	}
	return e.Op + e.Str + "(" + strings.Join(as, ",") + ")"
}

// subst replaces expressions and re-simplifies.
func subst(e *Expr, m map[*Expr]*Expr, memo map[*Expr]*Expr) *Expr {
	if len(m) == 0 {
		return e
	}
	only := true
	for k := range m {
		if !k.bound {
			only = false
		}
	}
	return substRec(e, m, memo, only)
}

func substRec(e *Expr, m map[*Expr]*Expr, memo map[*Expr]*Expr, only bool) *Expr {
	if r, ok := m[e]; ok {
		return r
	}
	if len(e.Args) == 0 || only && !e.bound {
		return e
	}
	if r, ok := memo[e]; ok {
		return r
	}
	mm, mmemo := m, memo
	if e.Op == "loop" || e.Op == "fill" {
		for k := range m {
			sh := false
			for _, f := range k.free {
				sh = sh || boundBy(e, f)
			}
			if sh {
				// captured: these keys mean something else inside
				mm, mmemo = map[*Expr]*Expr{}, map[*Expr]*Expr{}
				for k, v := range m {
					ok := true
					for _, f := range k.free {
						ok = ok && !boundBy(e, f)
					}
					if ok {
						mm[k] = v
					}
				}
				break
			}
		}
	}
	changed := false
	as := make([]*Expr, len(e.Args))
	for i, a := range e.Args {
		if len(mm) == 0 {
			as[i] = a
			continue
		}
		as[i] = substRec(a, mm, mmemo, only)
		changed = changed || as[i] != a
	}
	r := e
	if changed {
		r = rebuild(e, as)
	}
	memo[e] = r
	return r
}

func rebuild(e *Expr, as []*Expr) *Expr {
	switch e.Op {
	case "+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&^", "<", "<=", "==", "max", "min":
		k := e.K
		return binE(e.Op, k, as[0], as[1])
	case "!":
		return notE(as[0])
	case "and":
		return andE(as[0], as[1])
	case "or":
		return orE(as[0], as[1])
	case "ite":
		return iteE(as[0], as[1], as[2])
	case "sel":
		return selE(as[0], as[1], e.K)
	case "len":
		return lenE(as[0])
	case "conv":
		return convE(as[0], e.Str, e.K)
	}
	r := mk(e.Op, e.Str, e.K, as...)
	if e.Op == "fld" && fldOwner[r] == nil {
		fldOwner[r] = fldOwner[e]
	}
	return r
}

// differ: the two integer expressions can never be equal.
func differ(a, b *Expr) bool {
	if a.isNum() && b.isNum() {
		return a.I != b.I
	}
	d := binE("-", 'i', a, b)
	return d.isNum() && d.I != 0
}

func zeroOf(k byte) *Expr {
	switch k {
	case 'i':
		return constI(0)
	case 'f', 'd':
		return constF(0, k)
	case 'b':
		return eFalse
	case 's':
		return mk("const", `""`, 's')
	}
	return eNil
}

// constLeaves: a choice among a few constant integers.
func constLeaves(e *Expr) int {
	if e.Op != "ite" {
		if e.isNum() && e.K == 'i' {
			return 1
		}
		return 100
	}
	if e.size > 4000 {
		return 100
	}
	n := constLeaves(e.Args[1])
	if n > 8 {
		return n
	}
	return n + constLeaves(e.Args[2])
}

// maxLeaf is the largest of a few constant integers.
func maxLeaf(e *Expr) int64 {
	if constLeaves(e) > 8 {
		return 1 << 40
	}
	if e.Op != "ite" {
		return e.I
	}
	return max(maxLeaf(e.Args[1]), maxLeaf(e.Args[2]))
}

func selE(arr, idx *Expr, k byte) *Expr {
	if idx.Op == "ite" && arr.Op == "store" && arr.Args[1].isNum() && constLeaves(idx) <= 8 {
		return iteV(idx.Args[0], selE(arr, idx.Args[1], k), selE(arr, idx.Args[2], k))
	}
	for {
		switch arr.Op {
		case "zero":
			return zeroOf(k)
		case "store":
			if arr.Args[1] == idx {
				return arr.Args[2]
			}
			if differ(arr.Args[1], idx) {
				arr = arr.Args[0]
				continue
			}
			if idx.isNum() && arr.Args[1].Op == "ite" && constLeaves(arr.Args[1]) <= 8 {
				return iteV(binE("==", 'b', arr.Args[1], idx), arr.Args[2], selE(arr.Args[0], idx, k))
			}
		case "fill": // fill(pre, lo, hi, val, hole)
			v := subst(arr.Args[3], map[*Expr]*Expr{arr.Args[4]: idx}, map[*Expr]*Expr{})
			if arr.Str == "all" {
				return v
			}
			in := andE(binE("<=", 'b', arr.Args[1], idx), binE("<", 'b', idx, arr.Args[2]))
			return iteE(in, v, selE(arr.Args[0], idx, k))
		case "copied": // copied(dst, dstoff, src, srcoff, n)
			d := binE("-", 'i', idx, arr.Args[1])
			in := andE(binE("<=", 'b', constI(0), d), binE("<", 'b', d, arr.Args[4]))
			if in.isConst() || idx.isNum() {
				return iteE(in, selE(arr.Args[2], binE("+", 'i', arr.Args[3], d), k), selE(arr.Args[0], idx, k))
			}
		case "ite":
			return iteE(arr.Args[0], selE(arr.Args[1], idx, k), selE(arr.Args[2], idx, k))
		}
		return mk("sel", "", k, arr, idx)
	}
}

// holeAt is the bound index of a fill or of a quantified fact made by a loop
// of that depth.
func holeAt(d int) *Expr { return mk("bv", "•"+strconv.Itoa(d), 'i') }

func lenE(s *Expr) *Expr {
	switch s.Op {
	case "make":
		return s.Args[0]
	case "slice":
		return binE("-", 'i', s.Args[2], s.Args[1])
	case "const":
		if s == eNil {
			return constI(0)
		}
		if s.K == 's' {
			if u, err := strconv.Unquote(s.Str); err == nil {
				return constI(int64(len(u)))
			}
		}
	case "ite":
		return iteE(s.Args[0], lenE(s.Args[1]), lenE(s.Args[2]))
	case "append":
		return binE("+", 'i', lenE(s.Args[0]), s.Args[1])
	}
	n := mk("len", "", 'i', s)
	unsignedE[n] = true
	return n
}

func convE(a *Expr, to string, k byte) *Expr {
	if a.Op == "ite" && a.Args[1].isConst() && a.Args[2].isConst() {
		return iteE(a.Args[0], convE(a.Args[1], to, k), convE(a.Args[2], to, k))
	}
	if a.isNum() {
		switch k {
		case 'i':
			if a.K == 'i' {
				switch to {
				case "uint8", "byte":
					return constI(int64(uint8(a.I)))
				case "int8":
					return constI(int64(int8(a.I)))
				case "int16":
					return constI(int64(int16(a.I)))
				case "uint16":
					return constI(int64(uint16(a.I)))
				case "int32", "rune":
					return constI(int64(int32(a.I)))
				case "uint32":
					return constI(int64(uint32(a.I)))
				}
				return constI(a.I)
			}
			return constI(int64(a.F))
		case 'f', 'd':
			return constF(a.F, k)
		}
	}
	if k == 'd' && a.K == 'd' || k == 'f' && a.K == 'f' {
		return a
	}
	if k == 'f' && a.Op == "conv" && a.K == 'd' && a.Args[0].K == 'f' {
		return a.Args[0]
	}
	if k == 'i' && a.K == 'i' && (to == "int" || to == "int64") {
		return a // widening
	}
	if k == 's' && a.K == 's' {
		return a
	}
	// what is cut off at the outer width anyway
	for k == 'i' && a.Op == "conv" && a.K == 'i' && a.Args[0].K == 'i' && convWidth(to) > 0 && convWidth(a.Str) >= convWidth(to) {
		if a = a.Args[0]; a.isNum() {
			return convE(a, to, k)
		}
	}
	return mk("conv", to, k, a)
}

// convWidth is the number of bits of an integer type.
func convWidth(to string) int {
	switch to {
	case "uint8", "byte", "int8":
		return 8
	case "uint16", "int16":
		return 16
	case "uint32", "int32", "rune":
		return 32
	case "uint64", "uint", "uintptr":
		return 64
	}
	return 0
}

// deps collects every leaf of an expression: symbols and initial cells.
func leaves(e *Expr, out map[*Expr]bool, seen map[*Expr]bool) {
	if seen[e] {
		return
	}
	seen[e] = true
	switch e.Op {
	case "in", "sym", "A0":
		out[e] = true
	}
	for _, a := range e.Args {
		leaves(a, out, seen)
	}
}

func walkExpr(e *Expr, seen map[*Expr]bool, fn func(*Expr) bool) {
	if seen[e] {
		return
	}
	seen[e] = true
	if !fn(e) {
		return
	}
	for _, a := range e.Args {
		walkExpr(a, seen, fn)
	}
}

func sortedKeys(m map[*Expr]*Expr) []*Expr {
	var ks []*Expr
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

var _ = fmt.Sprint

// hasSym: the expression mentions an argument.
func (e *Expr) hasSym() bool {
	f := false
	walkExpr(e, map[*Expr]bool{}, func(x *Expr) bool {
		if x.Op == "sym" {
			f = true
		}
		return !f
	})
	return f
}
