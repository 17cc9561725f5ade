package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The symbolic evaluator computes, for one function, the value graph of its
// results and of every memory cell it leaves behind, with calls inlined,
// branches merged by conditionals and loops closed over their recurrences.
// Nothing is executed: values are expressions over the arguments and over the
// contents of memory on entry.

type sstate struct {
	heap   map[*Expr]*Expr
	pc     []*Expr
	quants []quant
}

// quant: for every iteration value • in [lo,hi) the cell key(•) holds val(•).
type quant struct {
	key, val, lo, hi *Expr
	hole             *Expr
	all              bool  // the range covers the whole collection
	cond             *Expr // under which the fact holds
}

// addQuants appends facts; a fact that covers an earlier one replaces it.
func addQuants(old, add []quant) []quant {
	for _, q := range add {
		if q.cond == eTrue {
			var keep []quant
			for _, p := range old {
				if p.key == q.key && (q.all || p.lo == q.lo && p.hi == q.hi && !p.all) {
					continue
				}
				keep = append(keep, p)
			}
			old = keep
		}
		old = append(old[:len(old):len(old)], q)
	}
	return old
}

// mergeQuants joins the facts of two branches taken under c and under !c.
func mergeQuants(c *Expr, a, b []quant) []quant {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	out := append([]quant{}, a[:n]...)
	used := map[int]bool{}
	for _, q := range a[n:] {
		m := -1
		for j := n; j < len(b); j++ {
			p := b[j]
			if !used[j] && p.key == q.key && p.lo == q.lo && p.hi == q.hi && p.all == q.all && p.hole == q.hole && (p.val == q.val || p.cond == q.cond) {
				m = j
				break
			}
		}
		if m < 0 {
			q.cond = andE(c, q.cond)
			out = append(out, q)
			continue
		}
		// in step with the other branch's order
		for j := n; j < m; j++ {
			if !used[j] {
				used[j] = true
				p := b[j]
				p.cond = andE(notE(c), p.cond)
				out = append(out, p)
			}
		}
		used[m] = true
		p := b[m]
		if p.val == q.val {
			q.cond = orE(andE(c, q.cond), andE(notE(c), p.cond))
		} else {
			q.val = iteE(c, q.val, p.val)
		}
		out = append(out, q)
	}
	for j := n; j < len(b); j++ {
		if !used[j] {
			p := b[j]
			p.cond = andE(notE(c), p.cond)
			out = append(out, p)
		}
	}
	return out
}

func (s *sstate) clone() *sstate {
	h := make(map[*Expr]*Expr, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &sstate{heap: h, pc: append([]*Expr{}, s.pc...), quants: append([]quant{}, s.quants...)}
}

type sframe struct {
	fn      *ssa.Function
	env     map[ssa.Value]*Expr
	parent  *sframe
	binds   []*Expr
	defers  []func(st *sstate)
	loops   map[*ssa.BasicBlock]*sloop
	inloop  map[*ssa.BasicBlock]*sloop // innermost loop
	ctx     string
	callBlk *ssa.BasicBlock // where the parent calls it
}

type sloop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *sloop
	latch  []*ssa.BasicBlock
}

// loopSum is the recurrence of one loop as it was last evaluated.
type loopSum struct {
	fr    *sframe
	loop  *sloop
	depth int
	keys  []*Expr // memory keys carried
	inits []*Expr
	bvs   []*Expr
	steps []*Expr
	phis  []*ssa.Phi
	start *sstate
	latch *sstate
	expr  *Expr
	conts []*Expr // conditions every further iteration has passed
}

type symEng struct {
	w        *World
	steps    int
	max      int
	depth    int
	iters    []*Expr
	stack    []*ssa.Function
	onInstr  func(fr *sframe, in ssa.Instruction, st *sstate)
	onLoop   func(ls *loopSum)
	arrLen   map[*Expr]int64
	callBlk  *ssa.BasicBlock
	wrote    map[*Expr]types.Type // every cell stored to
	leaks    map[*Expr]types.Type // storage handed to code outside
	quiet    int                  // >0 while a loop is only being explored
	clos     map[string]*ssa.Function
	opaque   func(f *ssa.Function) bool
	uncert   []string // constructs the evaluator gave up on
	keyT     map[*Expr]types.Type
	allocs   []allocRec
	mapsBack bool // known maps are visited last key first
	reals    bool // no number but math.NaN() is a NaN
	mapOrder bool // a map of two or more known keys was visited
	peel     int  // loops that end within this many iterations are taken apart
	impls    func(call *ssa.CallCommon) *ssa.Function
}

func newSymEng(w *World) *symEng {
	return &symEng{w: w, max: 400000, arrLen: map[*Expr]int64{}, clos: map[string]*ssa.Function{}, keyT: map[*Expr]types.Type{}}
}

type allocRec struct {
	e *Expr
	T types.Type // of the object, or of the elements of a slice
	n bool       // a slice
}

type symBudget struct{ where string }

func kindOf(T types.Type) byte {
	if b, ok := T.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return 'b'
		case b.Info()&types.IsInteger != 0:
			return 'i'
		case b.Kind() == types.Float32:
			return 'f'
		case b.Info()&types.IsFloat != 0:
			return 'd'
		case b.Info()&types.IsString != 0:
			return 's'
		}
	}
	return 'o'
}

// fldOwner is the struct type a field address belongs to.
var fldOwner = map[*Expr]types.Type{}

func fldE(p *Expr, name string, T types.Type) *Expr {
	if p.Op == "ite" {
		if q := notNil(p); q != p {
			return fldE(q, name, T)
		}
		return iteE(p.Args[0], fldE(p.Args[1], name, T), fldE(p.Args[2], name, T))
	}
	e := mk("fld", name, 'o', p)
	if fldOwner[e] == nil && T != nil {
		fldOwner[e] = T
	}
	return e
}

// notNil leaves out the arms of a pointer that are nil: the code that goes on
// after following it did not take them.
func notNil(p *Expr) *Expr {
	for p.Op == "ite" {
		switch eNil {
		case p.Args[1]:
			p = p.Args[2]
		case p.Args[2]:
			p = p.Args[1]
		default:
			return p
		}
	}
	return p
}

// root strips slicing and returns the backing array with an offset.
func sliceRoot(s *Expr) (*Expr, *Expr) {
	off := constI(0)
	for s.Op == "slice" {
		off = binE("+", 'i', off, s.Args[1])
		s = s.Args[0]
	}
	return s, off
}

func elemE(s, idx *Expr) *Expr {
	if s = notNil(s); s.Op == "ite" {
		return iteE(s.Args[0], elemE(s.Args[1], idx), elemE(s.Args[2], idx))
	}
	r, off := sliceRoot(s)
	if r.Op == "ite" {
		return iteE(r.Args[0], elemE(r.Args[1], binE("+", 'i', off, idx)), elemE(r.Args[2], binE("+", 'i', off, idx)))
	}
	return mk("elem", "", 'o', r, binE("+", 'i', off, idx))
}

func arrKey(root *Expr) *Expr { return mk("arrOf", "", 'o', root) }

func freshRoot(a *Expr) bool {
	for {
		switch a.Op {
		case "fld", "elem", "arrOf":
			a = a.Args[0]
		case "obj", "make":
			return true
		default:
			return false
		}
	}
}

// sameCell: under which condition two addresses are one cell. comparable is
// false for addresses that name different places whatever the indices are.
func sameCell(a, b *Expr) (*Expr, bool) {
	if a == b {
		return eTrue, true
	}
	if a.Op != b.Op || len(a.Args) != len(b.Args) || a.Str != b.Str {
		return nil, false
	}
	switch a.Op {
	case "fld", "arrOf", "in", "A0", "ver":
		return sameCell(a.Args[0], b.Args[0])
	case "elem", "sel":
		c, ok := sameCell(a.Args[0], b.Args[0])
		if !ok {
			return nil, false
		}
		if differ(a.Args[1], b.Args[1]) {
			return nil, false
		}
		return andE(c, binE("==", 'b', a.Args[1], b.Args[1])), true
	case "obj", "make":
		// the same allocation site in different iterations
		c := eTrue
		for i := range a.Args {
			if a.Args[i].K != 'i' {
				return nil, false
			}
			if differ(a.Args[i], b.Args[i]) {
				return nil, false
			}
			if a.Args[i] != b.Args[i] {
				c = andE(c, binE("==", 'b', a.Args[i], b.Args[i]))
			}
		}
		return c, true
	}
	return nil, false
}

func hasIdx(a *Expr) bool {
	for {
		switch a.Op {
		case "elem", "sel":
			return true
		case "obj", "make":
			return len(a.Args) > 0
		case "fld", "arrOf", "in", "A0", "ver":
			a = a.Args[0]
		default:
			return false
		}
	}
}

func (s *sstate) initial(key *Expr, k byte) *Expr {
	if key.Op == "arrOf" {
		if freshRoot(key) {
			return eZeroA
		}
		return mk("A0", "", 'o', key.Args[0])
	}
	if key.Op == "mapOf" {
		if key.Args[0].Op == "makemap" {
			return mk("emptymap", "", 'o')
		}
		return mk("M0", "", 'o', key.Args[0])
	}
	if freshRoot(key) {
		return zeroOf(k)
	}
	return mk("in", "", k, key)
}

func (s *sstate) read(key *Expr, k byte) *Expr {
	if v, ok := s.heap[key]; ok {
		return v
	}
	if !hasIdx(key) {
		return s.initial(key, k)
	}
	v := s.initial(key, k)
	for _, q := range s.quants {
		if m := matchHoles(q.key, key); m != nil {
			memo := map[*Expr]*Expr{}
			qv := subst(q.val, m, memo)
			c := subst(q.cond, m, memo)
			if !q.all {
				c = andE(c, andE(binE("<=", 'b', subst(q.lo, m, memo), m[q.hole]), binE("<", 'b', m[q.hole], subst(q.hi, m, memo))))
			}
			v = iteE(c, qv, v)
		}
	}
	for _, o := range sortedKeys(s.heap) {
		if !hasIdx(o) {
			continue
		}
		if c, ok := sameCell(o, key); ok {
			v = iteE(c, s.heap[o], v)
		}
	}
	return v
}

func (s *sstate) write(key, v *Expr) {
	if hasIdx(key) {
		for _, o := range sortedKeys(s.heap) {
			if o == key || !hasIdx(o) {
				continue
			}
			if c, ok := sameCell(o, key); ok {
				s.heap[o] = iteE(c, v, s.heap[o])
			}
		}
	}
	s.heap[key] = v
}

func isHole(e *Expr) bool { return e.Op == "bv" && strings.HasPrefix(e.Str, "•") }

// matchHoles: pat with its holes replaced by the result equals e.
func matchHoles(pat, e *Expr) map[*Expr]*Expr {
	m := map[*Expr]*Expr{}
	var rec func(p, x *Expr) bool
	rec = func(p, x *Expr) bool {
		if isHole(p) {
			if o := m[p]; o != nil && o != x {
				return false
			}
			m[p] = x
			return true
		}
		if p == x && !anyHole(p) {
			return true
		}
		if p.Op != x.Op || p.Str != x.Str || len(p.Args) != len(x.Args) {
			return false
		}
		for i := range p.Args {
			if !rec(p.Args[i], x.Args[i]) {
				return false
			}
		}
		return true
	}
	if rec(pat, e) {
		return m
	}
	return nil
}

func anyHole(e *Expr) bool {
	for _, f := range e.free {
		if isHole(f) {
			return true
		}
	}
	return false
}

func (g *symEng) noteWrite(k *Expr, T types.Type) {
	if g.wrote == nil {
		g.wrote = map[*Expr]types.Type{}
	}
	g.wrote[k] = T
}

func structOf(T types.Type) *types.Struct {
	st, _ := T.Underlying().(*types.Struct)
	return st
}

func (g *symEng) load(st *sstate, addr *Expr, T types.Type) *Expr {
	if addr.Op == "ite" {
		return iteE(addr.Args[0], g.load(st, addr.Args[1], T), g.load(st, addr.Args[2], T))
	}
	if s := structOf(T); s != nil {
		as := make([]*Expr, s.NumFields())
		for i := range as {
			as[i] = g.load(st, fldE(addr, s.Field(i).Name(), T), s.Field(i).Type())
		}
		return structE(T.String(), s, as)
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		r, _ := sliceRoot(addr)
		g.arrLen[r] = at.Len()
		if wholeElems(at) {
			v := eZeroA
			for i := int64(0); i < at.Len(); i++ {
				if x := g.load(st, elemE(addr, constI(i)), at.Elem()); x != eZeroA {
					v = mk("store", "", 'o', v, constI(i), x)
				}
			}
			return v
		}
		return st.read(arrKey(r), 'o')
	}
	if addr.Op == "elem" {
		return selE(st.read(arrKey(addr.Args[0]), 'o'), addr.Args[1], kindOf(T))
	}
	if p := castOf(addr); p != nil {
		// the bits of a number read as another type
		k := kindOf(T)
		from := byte('i')
		if k == 'i' {
			from = 'd'
		}
		if b, ok := T.Underlying().(*types.Basic); ok {
			if v := st.read(p, from); v.K == k {
				return v
			} else {
				return bitcastE(v, b)
			}
		}
	}
	g.keyT[addr] = T
	return st.read(addr, kindOf(T))
}

// castOf is p of (*T)(unsafe.Pointer(p)).
func castOf(a *Expr) *Expr {
	if a.Op == "conv" && strings.HasPrefix(a.Str, "*") && a.Args[0].Op == "conv" && a.Args[0].Str == "unsafe.Pointer" {
		return a.Args[0].Args[0]
	}
	return nil
}

func bitcastE(v *Expr, to *types.Basic) *Expr {
	name := map[types.BasicKind]string{types.Float64: "math.Float64frombits", types.Float32: "math.Float32frombits", types.Uint64: "math.Float64bits", types.Uint32: "math.Float32bits"}[to.Kind()]
	if name == "" {
		return mk("conv", "bits:"+to.Name(), kindOf(to), v)
	}
	return bitsE(name, v)
}

var bitsInverse = map[string]string{"math.Float64frombits": "math.Float64bits", "math.Float64bits": "math.Float64frombits", "math.Float32frombits": "math.Float32bits", "math.Float32bits": "math.Float32frombits"}
var bitsKind = map[string]byte{"math.Float64frombits": 'd', "math.Float64bits": 'i', "math.Float32frombits": 'f', "math.Float32bits": 'i'}

func bitsE(name string, v *Expr) *Expr {
	switch {
	case v.Op == "call" && v.Str == bitsInverse[name]:
		return v.Args[0]
	case v.Op == "ite":
		return iteE(v.Args[0], bitsE(name, v.Args[1]), bitsE(name, v.Args[2]))
	case name == "math.Float64bits" && v.isNum() && v.F >= 0 && math.Float64bits(v.F) < 1<<62:
		return constI(int64(math.Float64bits(v.F)))
	case name == "math.Float64frombits" && v.isNum():
		return constF(math.Float64frombits(uint64(v.I)), 'd')
	}
	return mk("call", name, bitsKind[name], v)
}

// listE replaces a fresh slice of a few known elements (the arguments of a
// variadic call) by those elements.
func (g *symEng) listE(st *sstate, a *Expr, T types.Type) *Expr {
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		return a
	}
	if a == eNil {
		return mk("list", "", 'o')
	}
	r, off := sliceRoot(a)
	n := lenE(a)
	if r.Op != "obj" || !n.isNum() || n.I > 16 || off != constI(0) || structOf(sl.Elem()) != nil {
		return a
	}
	var es []*Expr
	for i := int64(0); i < n.I; i++ {
		es = append(es, g.load(st, elemE(a, constI(i)), sl.Elem()))
	}
	return mk("list", "", 'o', es...)
}

func (g *symEng) store(st *sstate, addr, v *Expr, T types.Type) {
	if addr.Op == "ite" {
		c := addr.Args[0]
		a, b := addr.Args[1], addr.Args[2]
		g.store(st, a, iteE(c, v, g.load(st, a, T)), T)
		g.store(st, b, iteE(c, g.load(st, b, T), v), T)
		return
	}
	if s := structOf(T); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			g.store(st, fldE(addr, s.Field(i).Name(), T), g.fieldOf(v, i, s), s.Field(i).Type())
		}
		return
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		r, _ := sliceRoot(addr)
		g.arrLen[r] = at.Len()
		if v == eNil {
			v = eZeroA
		}
		if wholeElems(at) {
			for i := int64(0); i < at.Len(); i++ {
				x := eNil
				if v != eZeroA {
					x = selE(v, constI(i), 'o')
				}
				g.store(st, elemE(addr, constI(i)), x, at.Elem())
			}
			return
		}
		st.write(arrKey(r), v)
		if structOf(at.Elem()) != nil {
			// element cells are overwritten as well
			for _, o := range sortedKeys(st.heap) {
				if under(o, r) {
					delete(st.heap, o)
				}
			}
		}
		return
	}
	if g.quiet == 0 {
		if g.wrote == nil {
			g.wrote = map[*Expr]types.Type{}
		}
		g.wrote[addr] = T
	}
	if addr.Op == "elem" {
		k := arrKey(addr.Args[0])
		st.write(k, storeE(st.read(k, 'o'), addr.Args[1], v))
		return
	}
	g.keyT[addr] = T
	st.write(addr, v)
}

// wholeElems is whether the elements of an array have cells of their own.
func wholeElems(at *types.Array) bool {
	if at.Len() > 64 {
		return false
	}
	switch at.Elem().Underlying().(type) {
	case *types.Array, *types.Struct:
		return true
	}
	return false
}

func under(a, r *Expr) bool {
	for a != r {
		switch a.Op {
		case "fld", "elem":
			a = a.Args[0]
		default:
			return false
		}
	}
	return true
}

func storeE(arr, idx, v *Expr) *Expr {
	if arr.Op == "store" && arr.Args[1] == idx {
		arr = arr.Args[0]
	}
	if arr == eZeroA && v.isConst() && v.K != 'o' && v == zeroOf(v.K) {
		return arr
	}
	return mk("store", "", 'o', arr, idx, v)
}

// foldMath evaluates a library function of constants.
func foldMath(name string, args []*Expr) (float64, bool) {
	if !strings.HasPrefix(name, "math.") {
		return 0, false
	}
	for _, a := range args {
		if !a.isNum() || a.K == 'i' {
			return 0, false
		}
	}
	if len(args) == 1 {
		f := map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs,
			"Sqrt": math.Sqrt, "Tanh": math.Tanh, "Exp": math.Exp, "Exp2": math.Exp2,
			"Log": math.Log, "Log10": math.Log10, "Log2": math.Log2, "Atan": math.Atan, "Sinh": math.Sinh, "Cosh": math.Cosh}[name[5:]]
		if name == "math.Tan" && math.Abs(args[0].F) > 8 {
			f = math.Tan // no angle of a known tangent
		}
		if f != nil {
			v := f(args[0].F)
			return v, !math.IsNaN(v) && !math.IsInf(v, 0)
		}
	}
	if len(args) == 2 {
		f := map[string]func(x, y float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Atan2": math.Atan2, "Hypot": math.Hypot}[name[5:]]
		if f != nil {
			v := f(args[0].F, args[1].F)
			return v, !math.IsNaN(v) && !math.IsInf(v, 0)
		}
	}
	return 0, false
}

// sliceE is s[lo:hi].
func sliceE(s, lo, hi *Expr) *Expr {
	if s.Op == "slice" {
		return sliceE(s.Args[0], binE("+", 'i', s.Args[1], lo), binE("+", 'i', s.Args[1], hi))
	}
	if lo == constI(0) && hi == lenE(s) {
		return s
	}
	return mk("slice", "", 'o', s, lo, hi)
}

func (g *symEng) fieldOf(v *Expr, i int, s *types.Struct) *Expr {
	switch v.Op {
	case "struct":
		return v.Args[i]
	case "ite":
		return iteE(v.Args[0], g.fieldOf(v.Args[1], i, s), g.fieldOf(v.Args[2], i, s))
	}
	T := s.Field(i).Type()
	if v == eNil {
		if structOf(T) == nil {
			if _, ok := T.Underlying().(*types.Array); ok {
				return eZeroA
			}
			return zeroOf(kindOf(T))
		}
		return eNil
	}
	return mk("fv", s.Field(i).Name(), kindOf(T), v)
}

// structE builds a struct value; one built of all the fields of another is it.
func structE(name string, s *types.Struct, as []*Expr) *Expr {
	if len(as) > 0 && as[0].Op == "fv" {
		x, same := as[0].Args[0], true
		for i, a := range as {
			same = same && a.Op == "fv" && a.Str == s.Field(i).Name() && a.Args[0] == x
		}
		if same {
			return x
		}
	}
	return mk("struct", name, 'o', as...)
}

func constOf(c *ssa.Const) *Expr {
	T := c.Type()
	if c.Value == nil {
		if _, ok := T.Underlying().(*types.Array); ok {
			return eZeroA
		}
		if s := structOf(T); s != nil && s.NumFields() > 0 {
			as := make([]*Expr, s.NumFields())
			for i := range as {
				as[i] = constOf(ssa.NewConst(nil, s.Field(i).Type()))
			}
			return structE(T.String(), s, as)
		}
		return zeroOf(kindOf(T))
	}
	switch kindOf(T) {
	case 'b':
		return constB(constant.BoolVal(c.Value))
	case 'i':
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return constI(i)
		}
		return mk("bigconst", c.Value.ExactString(), 'i')
	case 'f':
		f, _ := constant.Float64Val(c.Value)
		return constF(f, 'f')
	case 'd':
		f, _ := constant.Float64Val(c.Value)
		return constF(f, 'd')
	case 's':
		return mk("const", fmt.Sprintf("%q", constant.StringVal(c.Value)), 's')
	}
	return mk("const", c.String(), kindOf(T))
}

func (g *symEng) val(fr *sframe, v ssa.Value) *Expr {
	switch v := v.(type) {
	case *ssa.Const:
		return constOf(v)
	case *ssa.Global:
		return mk("global", v.String(), 'o')
	case *ssa.Function:
		g.clos[v.String()] = v
		return mk("closure", v.String(), 'o')
	case *ssa.Builtin:
		return mk("builtin", v.Name(), 'o')
	case *ssa.FreeVar:
		for i, fv := range fr.fn.FreeVars {
			if fv == v && i < len(fr.binds) {
				return fr.binds[i]
			}
		}
		return sym("free:"+v.Name(), kindOf(v.Type()))
	}
	if e := fr.env[v]; e != nil {
		return e
	}
	return mk("undef", v.Name()+"@"+fr.fn.String(), kindOf(v.Type()))
}

// findLoops computes the natural loops of a function.
func findLoops(f *ssa.Function) (map[*ssa.BasicBlock]*sloop, map[*ssa.BasicBlock]*sloop) {
	loops := map[*ssa.BasicBlock]*sloop{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := loops[h]
				if l == nil {
					l = &sloop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					loops[h] = l
				}
				l.latch = append(l.latch, b)
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	inner := map[*ssa.BasicBlock]*sloop{}
	for _, b := range f.Blocks {
		for _, l := range loops {
			if l.blocks[b] && (inner[b] == nil || len(l.blocks) < len(inner[b].blocks)) {
				inner[b] = l
			}
		}
	}
	for _, l := range loops {
		for _, o := range loops {
			if o != l && o.blocks[l.head] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
	}
	return loops, inner
}

// call evaluates a function in place on st and returns its result; ok is
// false when no path returns.
func (g *symEng) call(fn *ssa.Function, args, binds []*Expr, st *sstate, parent *sframe, ctx string) (*Expr, bool) {
	fr := &sframe{fn: fn, env: map[ssa.Value]*Expr{}, parent: parent, binds: binds, ctx: ctx, callBlk: g.callBlk}
	g.callBlk = nil
	if covered != nil {
		covered[fn.String()] = true
	}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	fr.loops, fr.inloop = findLoops(fn)
	g.stack = append(g.stack, fn)
	defer func() { g.stack = g.stack[:len(g.stack)-1] }()
	base := len(st.pc)
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	outs := g.region(fr, all, fn.Blocks[0], st.clone(), nil)
	var rets []edgeOut
	for _, o := range outs {
		if o.to == nil {
			rets = append(rets, o)
		}
	}
	if len(rets) == 0 {
		return nil, false
	}
	m, vals := mergeEdges(rets, func(o edgeOut) []*Expr { return []*Expr{o.ret} })
	st.heap, st.quants = m.heap, m.quants
	// the caller keeps going on every returning path
	if len(m.pc) > base {
		st.pc = m.pc
	} else {
		st.pc = st.pc[:base]
	}
	return vals[0], true
}

type edgeOut struct {
	from, to *ssa.BasicBlock // to == nil: return
	st       *sstate
	ret      *Expr
}

func conj(cs []*Expr) *Expr {
	r := eTrue
	for _, c := range cs {
		r = andE(r, c)
	}
	return r
}

// mergeEdges joins states; pick gives per-edge values joined the same way.
func mergeEdges(es []edgeOut, pick func(edgeOut) []*Expr) (*sstate, []*Expr) {
	if len(es) == 1 {
		return es[0].st, pick(es[0])
	}
	n := len(es[0].st.pc)
	for _, e := range es[1:] {
		k := 0
		for k < n && k < len(e.st.pc) && e.st.pc[k] == es[0].st.pc[k] {
			k++
		}
		n = k
	}
	conds := make([]*Expr, len(es))
	disj := eFalse
	for i, e := range es {
		conds[i] = conj(e.st.pc[n:])
		disj = orE(disj, conds[i])
	}
	last := len(es) - 1
	res := es[last].st.clone()
	vals := append([]*Expr{}, pick(es[last])...)
	for i := last - 1; i >= 0; i-- {
		o := es[i].st
		c := conds[i]
		keys := map[*Expr]bool{}
		for k := range res.heap {
			keys[k] = true
		}
		for k := range o.heap {
			keys[k] = true
		}
		nh := map[*Expr]*Expr{}
		for k := range keys {
			kk := byte('o')
			if v, ok := res.heap[k]; ok {
				kk = v.K
			} else {
				kk = o.heap[k].K
			}
			nh[k] = iteE(c, o.read(k, kk), res.read(k, kk))
		}
		res.heap = nh
		res.quants = mergeQuants(c, o.quants, res.quants)
		vs := pick(es[i])
		for j := range vals {
			if vals[j] == nil || vs[j] == nil {
				continue
			}
			vals[j] = iteE(c, vs[j], vals[j])
		}
	}
	res.pc = append([]*Expr{}, es[0].st.pc[:n]...)
	if disj != eTrue {
		res.pc = append(res.pc, disj)
	}
	return res, vals
}

// region evaluates the blocks of a set from entry. Edges to entry (back
// edges), out of the set and returns come back as outputs.
func (g *symEng) region(fr *sframe, set map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *sstate, self *sloop) []edgeOut {
	var outs []edgeOut
	in := map[*ssa.BasicBlock][]edgeOut{}
	// order: reverse postorder over the region without back edges
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] || !set[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if s.Dominates(b) {
				continue
			}
			dfs(s)
		}
		order = append([]*ssa.BasicBlock{b}, order...)
	}
	dfs(entry)
	done := map[*ssa.BasicBlock]bool{}
	deliver := func(o edgeOut) {
		if o.to == nil || o.to == entry || !set[o.to] {
			outs = append(outs, o)
			return
		}
		in[o.to] = append(in[o.to], o)
	}
	for _, b := range order {
		if done[b] {
			continue
		}
		var cur *sstate
		if b == entry {
			cur = st
		} else {
			es := in[b]
			if len(es) == 0 {
				continue // unreachable under the conditions
			}
			var phis []*ssa.Phi
			for _, i := range b.Instrs {
				if p, ok := i.(*ssa.Phi); ok {
					phis = append(phis, p)
				} else {
					break
				}
			}
			l := fr.loops[b]
			var vals []*Expr
			cur, vals = mergeEdges(es, func(o edgeOut) []*Expr {
				var vs []*Expr
				for _, p := range phis {
					vs = append(vs, g.val(fr, p.Edges[predIndex(b, o.from)]))
				}
				return vs
			})
			for i, p := range phis {
				fr.env[p] = vals[i]
			}
			if l != nil && l != self {
				for _, o := range g.loop(fr, l, cur.clone(), phis, vals) {
					deliver(o)
				}
				for x := range l.blocks {
					done[x] = true
				}
				continue
			}
		}
		if b == entry && fr.loops[b] != nil && fr.loops[b] != self {
			// a loop head that is the entry of the function
			for _, o := range g.loop(fr, fr.loops[b], cur.clone(), nil, nil) {
				deliver(o)
			}
			for x := range fr.loops[b].blocks {
				done[x] = true
			}
			continue
		}
		for _, o := range g.block(fr, b, cur) {
			deliver(o)
		}
	}
	return outs
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return 0
}

func (g *symEng) decide(st *sstate, c *Expr) *Expr {
	if c.isConst() {
		return c
	}
	n := notE(c)
	for _, p := range st.pc {
		if impliesLit(p, c) {
			return eTrue
		}
		if impliesLit(p, n) {
			return eFalse
		}
	}
	return c
}

func impliesLit(p, c *Expr) bool {
	if p == c {
		return true
	}
	if p.Op == "and" {
		return impliesLit(p.Args[0], c) || impliesLit(p.Args[1], c)
	}
	// a <= k1 implies a <= k2 for k1 <= k2
	if p.Op == "<=" && c.Op == "<=" && p.Args[0] == c.Args[0] && p.Args[1].isNum() && c.Args[1].isNum() {
		return p.Args[1].F <= c.Args[1].F
	}
	if p.Op == "<=" && c.Op == "<=" && p.Args[1] == c.Args[1] && p.Args[0].isNum() && c.Args[0].isNum() {
		return p.Args[0].F >= c.Args[0].F
	}
	return false
}

func (g *symEng) block(fr *sframe, b *ssa.BasicBlock, st *sstate) []edgeOut {
	for _, in := range b.Instrs {
		g.steps++
		if g.steps > g.max {
			panic(symBudget{fr.fn.String()})
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			if g.onInstr != nil && g.quiet == 0 {
				g.onInstr(fr, in, st)
			}
			c := g.decide(st, g.val(fr, x.Cond))
			var outs []edgeOut
			if c != eFalse {
				s := st.clone()
				if c != eTrue {
					s.pc = append(s.pc, c)
				}
				outs = append(outs, edgeOut{from: b, to: b.Succs[0], st: s})
			}
			if c != eTrue {
				s := st
				if c != eFalse {
					s.pc = append(s.pc, notE(c))
				}
				outs = append(outs, edgeOut{from: b, to: b.Succs[1], st: s})
			}
			return outs
		case *ssa.Jump:
			return []edgeOut{{from: b, to: b.Succs[0], st: st}}
		case *ssa.Return:
			if g.onInstr != nil && g.quiet == 0 {
				g.onInstr(fr, in, st)
			}
			var r *Expr
			switch len(x.Results) {
			case 0:
				r = eNil
			case 1:
				r = g.val(fr, x.Results[0])
			default:
				var vs []*Expr
				for _, v := range x.Results {
					vs = append(vs, g.val(fr, v))
				}
				r = mk("struct", "tuple", 'o', vs...)
			}
			return []edgeOut{{from: b, st: st, ret: r}}
		case *ssa.Panic:
			if g.onInstr != nil && g.quiet == 0 {
				g.onInstr(fr, in, st)
			}
			return nil
		}
		if g.onInstr != nil && g.quiet == 0 {
			g.onInstr(fr, in, st)
		}
		if !g.instr(fr, in, st) {
			return nil
		}
	}
	return nil
}

func (g *symEng) iterArgs() []*Expr { return append([]*Expr{}, g.iters...) }

func (g *symEng) instr(fr *sframe, in ssa.Instruction, st *sstate) bool {
	set := func(v ssa.Value, e *Expr) { fr.env[v] = e }
	switch x := in.(type) {
	case *ssa.Alloc:
		name := fmt.Sprintf("%s:%s", fr.ctx+opName(fr.fn), x.Name())
		o := mk("obj", name, 'o', g.iterArgs()...)
		// a stack variable re-declared in a later iteration starts from zero
		for _, k := range sortedKeys(st.heap) {
			if under(k, o) || k.Op == "arrOf" && under(k.Args[0], o) {
				delete(st.heap, k)
			}
		}
		if g.quiet == 0 {
			g.allocs = append(g.allocs, allocRec{o, x.Type().Underlying().(*types.Pointer).Elem(), false})
		}
		set(x, o)
	case *ssa.FieldAddr:
		T := x.X.Type().Underlying().(*types.Pointer).Elem()
		set(x, fldE(g.val(fr, x.X), structOf(T).Field(x.Field).Name(), T))
	case *ssa.Field:
		set(x, g.fieldOf(g.val(fr, x.X), x.Field, structOf(x.X.Type())))
	case *ssa.IndexAddr:
		b := g.val(fr, x.X)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && b.Op != "ite" {
				r, _ := sliceRoot(b)
				g.arrLen[r] = at.Len()
			}
		}
		set(x, elemE(b, g.val(fr, x.Index)))
	case *ssa.Index:
		v, i := g.val(fr, x.X), g.val(fr, x.Index)
		if t, ok := constStr(v); ok && kindOf(x.X.Type()) == 's' && i.isNum() && 0 <= i.I && i.I < int64(len(t)) {
			set(x, constI(int64(t[i.I])))
		} else {
			set(x, selE(v, i, kindOf(x.Type())))
		}
	case *ssa.UnOp:
		v := g.val(fr, x.X)
		switch x.Op {
		case token.MUL:
			set(x, g.load(st, v, x.Type()))
		case token.SUB:
			if v.isNum() {
				if v.K == 'i' {
					set(x, constI(-v.I))
				} else {
					set(x, constF(-v.F, v.K))
				}
			} else {
				set(x, binE("-", kindOf(x.Type()), zeroOf(kindOf(x.Type())), v))
			}
		case token.NOT:
			set(x, notE(v))
		default:
			set(x, mk("un"+x.Op.String(), "", kindOf(x.Type()), v))
		}
	case *ssa.BinOp:
		a, b := g.val(fr, x.X), g.val(fr, x.Y)
		markUnsigned(a, x.X.Type())
		markUnsigned(b, x.Y.Type())
		set(x, wrapConst(binE(x.Op.String(), kindOf(x.Type()), a, b), x.Type()))
		if kindOf(x.Type()) == 'b' {
			set(x, g.decide(st, fr.env[x]))
		}
	case *ssa.Convert:
		v := g.val(fr, x.X)
		if r := g.convBytes(fr, st, x, v); r != nil {
			set(x, r)
		} else if isUnsafe(x.Type()) || isUnsafe(x.X.Type()) {
			set(x, castPtr(v, x.Type())) // the same address
		} else if kindOf(x.Type()) == 'o' || kindOf(x.X.Type()) == 'o' {
			set(x, mk("conv", x.Type().String(), kindOf(x.Type()), v))
		} else {
			set(x, convE(v, types.TypeString(x.Type().Underlying(), nil), kindOf(x.Type())))
		}
	case *ssa.ChangeType:
		set(x, g.val(fr, x.X))
	case *ssa.ChangeInterface:
		set(x, g.val(fr, x.X))
	case *ssa.MakeInterface:
		set(x, mk("iface", x.X.Type().String(), 'o', g.val(fr, x.X)))
	case *ssa.TypeAssert:
		v := g.val(fr, x.X)
		res, ok := assertE(v, x.AssertedType)
		if x.CommaOk {
			set(x, mk("struct", "tuple", 'o', res, ok))
		} else {
			set(x, res)
		}
	case *ssa.Extract:
		t := g.val(fr, x.Tuple)
		set(x, extractE(t, x.Index, kindOf(x.Type())))
	case *ssa.MakeSlice:
		n := g.val(fr, x.Len)
		name := fmt.Sprintf("%s:%s", fr.ctx+opName(fr.fn), x.Name())
		o := mk("make", name, 'o', append([]*Expr{n}, g.iterArgs()...)...)
		if g.quiet == 0 {
			g.allocs = append(g.allocs, allocRec{o, x.Type().Underlying().(*types.Slice).Elem(), true})
		}
		set(x, o)
	case *ssa.Slice:
		b := g.val(fr, x.X)
		lo := constI(0)
		if x.Low != nil {
			lo = g.val(fr, x.Low)
		}
		var hi *Expr
		if x.High != nil {
			hi = g.val(fr, x.High)
		} else if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			hi = constI(pt.Elem().Underlying().(*types.Array).Len())
		} else {
			hi = lenE(b)
		}
		if kindOf(x.X.Type()) == 's' {
			if t, ok := constStr(b); ok && lo.isNum() && hi.isNum() && 0 <= lo.I && lo.I <= hi.I && hi.I <= int64(len(t)) {
				set(x, strE(t[lo.I:hi.I]))
			} else {
				set(x, mk("substr", "", 's', b, lo, hi))
			}
		} else if b == eNil {
			set(x, eNil)
		} else if b = notNil(b); b.Op == "ite" {
			set(x, iteE(b.Args[0], sliceE(b.Args[1], lo, hi), sliceE(b.Args[2], lo, hi)))
		} else if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr && x.Low == nil && x.High == nil {
			set(x, b)
		} else {
			set(x, sliceE(b, lo, hi))
		}
	case *ssa.Store:
		g.store(st, g.val(fr, x.Addr), g.val(fr, x.Val), x.Val.Type())
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		g.clos[f.String()] = f
		var bs []*Expr
		for _, b := range x.Bindings {
			bs = append(bs, g.val(fr, b))
		}
		set(x, mk("closure", f.String(), 'o', bs...))
	case *ssa.MakeMap:
		name := fmt.Sprintf("%s:%s", fr.ctx+opName(fr.fn), x.Name())
		set(x, mk("makemap", name, 'o', g.iterArgs()...))
	case *ssa.MakeChan:
		set(x, mk("makechan", x.Name(), 'o', g.iterArgs()...))
	case *ssa.MapUpdate:
		m := g.val(fr, x.Map)
		key, v := g.val(fr, x.Key), g.val(fr, x.Value)
		g.mapStore(st, m, x.Map.Type(), func(old *Expr) *Expr { return mk("mapput", "", 'o', old, key, v) })
	case *ssa.Lookup:
		m, k := g.val(fr, x.X), g.val(fr, x.Index)
		if kindOf(x.X.Type()) == 's' {
			if t, ok := constStr(m); ok && k.isNum() && k.I >= 0 && k.I < int64(len(t)) {
				set(x, constI(int64(t[k.I])))
				break
			}
			set(x, mk("charat", "", 'i', m, k))
			break
		}
		T := x.X.Type().Underlying().(*types.Map).Elem()
		mv := g.mapVal(st, m)
		v, ok := mapGet(mv, k, kindOf(T))
		if x.CommaOk {
			set(x, mk("struct", "tuple", 'o', v, ok))
		} else {
			set(x, v)
		}
	case *ssa.Range:
		v := g.val(fr, x.X)
		if kindOf(x.X.Type()) != 's' {
			v = g.mapVal(st, v)
		}
		set(x, mk("range", "", 'o', v))
	case *ssa.Next:
		it := g.val(fr, x.Iter)
		tt := x.Type().(*types.Tuple)
		if r, ok := x.Iter.(*ssa.Range); ok && !x.IsString {
			if v := g.mapNext(fr, st, r, it, tt); v != nil {
				set(x, v)
				break
			}
		}
		if t, ok := constStr(it.Args[0]); ok && x.IsString && len(g.iters) > 0 && g.iters[len(g.iters)-1].isNum() {
			n, done := g.iters[len(g.iters)-1].I, true
			for i, r := range t {
				if n == 0 {
					set(x, mk("struct", "tuple", 'o', eTrue, constI(int64(i)), constI(int64(r))))
					done = false
					break
				}
				n--
			}
			if done {
				set(x, mk("struct", "tuple", 'o', eFalse, constI(0), constI(0)))
			}
			break
		}
		args := append([]*Expr{it}, g.iterArgs()...)
		var vs []*Expr
		for i := 0; i < tt.Len(); i++ {
			vs = append(vs, mk("next", fmt.Sprint(i), kindOf(tt.At(i).Type()), args...))
		}
		set(x, mk("struct", "tuple", 'o', vs...))
	case *ssa.Call:
		r, ok := g.doCall(fr, x.Common(), st, in)
		if !ok {
			return false
		}
		set(x, r)
	case *ssa.Defer:
		cc := x.Common()
		f := fr
		saved := map[ssa.Value]*Expr{}
		for _, a := range cc.Args {
			saved[a] = g.val(fr, a)
		}
		saved[cc.Value] = g.val(fr, cc.Value)
		fr.defers = append(fr.defers, func(s *sstate) {
			g.doCallArgs(f, cc, s, in, saved)
		})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			fr.defers[i](st)
		}
	case *ssa.Go:
		g.giveUp("goroutine in " + fr.fn.String())
	case *ssa.Send, *ssa.Select:
		g.giveUp("channel operation in " + fr.fn.String())
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		set(in.(ssa.Value), mk("opaque", in.String(), 'o'))
	default:
		panic(fmt.Sprintf("symbolic evaluator: instruction %T in %s", in, fr.fn))
	}
	return true
}

// byteOfE is one byte of a number, the least first; joinE puts bytes back
// together.
func byteOfE(x, i *Expr) *Expr {
	if x.isNum() && i.isNum() {
		return constI(int64(byte(uint64(x.I) >> (8 * i.I))))
	}
	if x.Op == "ite" {
		return iteE(x.Args[0], byteOfE(x.Args[1], i), byteOfE(x.Args[2], i))
	}
	r := mk("byteof", "", 'i', x, i)
	unsignedE[r] = true
	return r
}

func joinE(bs []*Expr) *Expr {
	v, known, same := uint64(0), true, true
	var of *Expr
	for i, b := range bs {
		if b.Op == "ite" {
			// bytes of a conditional number, each conditional on the same
			c := b.Args[0]
			var l, r []*Expr
			for _, x := range bs {
				if x.Op == "ite" && x.Args[0] == c {
					l, r = append(l, x.Args[1]), append(r, x.Args[2])
				} else {
					l, r = append(l, x), append(r, x)
				}
			}
			return iteE(c, joinE(l), joinE(r))
		}
		if b.isNum() {
			v |= uint64(byte(b.I)) << (8 * i)
		} else {
			known = false
		}
		if b.Op == "byteof" && b.Args[1] == constI(int64(i)) && (of == nil || of == b.Args[0]) {
			of = b.Args[0]
		} else {
			same = false
		}
	}
	if known {
		return constI(int64(v))
	}
	if same {
		return of
	}
	return mk("join", "", 'i', bs...)
}

// assertE is a type assertion and whether it holds.
func assertE(v *Expr, T types.Type) (res, ok *Expr) {
	if v.Op == "iface" && !types.IsInterface(T) {
		if v.Str == T.String() {
			return v.Args[0], eTrue
		}
		return zeroOf(kindOf(T)), eFalse
	}
	if v == eNil {
		return zeroOf(kindOf(T)), eFalse
	}
	if v.Op == "ite" {
		a, aok := assertE(v.Args[1], T)
		b, bok := assertE(v.Args[2], T)
		return iteE(v.Args[0], a, b), iteE(v.Args[0], aok, bok)
	}
	return mk("as", T.String(), kindOf(T), v), mk("is", T.String(), 'b', v)
}

// constStr is the text of a constant string.
func constStr(e *Expr) (string, bool) {
	if e.Op != "const" || e.K != 's' {
		return "", false
	}
	t, err := strconv.Unquote(e.Str)
	return t, err == nil
}

func strE(t string) *Expr { return mk("const", fmt.Sprintf("%q", t), 's') }

// convBytes converts between strings and bytes one by one where the length is
// known and short.
func (g *symEng) convBytes(fr *sframe, st *sstate, x *ssa.Convert, v *Expr) *Expr {
	sliceOf := func(T types.Type, k types.BasicKind) bool {
		s, ok := T.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
	isBytes := func(T types.Type) bool { return sliceOf(T, types.Uint8) }
	switch {
	case kindOf(x.X.Type()) == 's' && sliceOf(x.Type(), types.Int32):
		t, ok := constStr(v)
		rs := []rune(t)
		if !ok || len(rs) > 64 {
			return nil
		}
		o := mk("make", fmt.Sprintf("%s:%s", fr.ctx+opName(fr.fn), x.Name()), 'o', append([]*Expr{constI(int64(len(rs)))}, g.iterArgs()...)...)
		a := eZeroA
		for i, r := range rs {
			a = storeE(a, constI(int64(i)), constI(int64(r)))
		}
		st.write(arrKey(o), a)
		return o
	case kindOf(x.Type()) == 's' && sliceOf(x.X.Type(), types.Int32):
		n := lenE(v)
		if !n.isNum() || n.I > 64 {
			return nil
		}
		var rs []rune
		for i := range n.I {
			b := g.load(st, elemE(v, constI(i)), types.Typ[types.Int32])
			if !b.isNum() {
				return nil
			}
			rs = append(rs, rune(b.I))
		}
		return strE(string(rs))
	case kindOf(x.X.Type()) == 's' && isBytes(x.Type()):
		t, ok := constStr(v)
		if !ok || len(t) > 64 {
			return nil
		}
		o := mk("make", fmt.Sprintf("%s:%s", fr.ctx+opName(fr.fn), x.Name()), 'o', append([]*Expr{constI(int64(len(t)))}, g.iterArgs()...)...)
		a := eZeroA
		for i := range len(t) {
			a = storeE(a, constI(int64(i)), constI(int64(t[i])))
		}
		st.write(arrKey(o), a)
		return o
	case kindOf(x.Type()) == 's' && isBytes(x.X.Type()):
		n := lenE(v)
		if !n.isNum() || n.I > 64 {
			return nil
		}
		var bs []*Expr
		t, known := "", true
		for i := range n.I {
			b := g.load(st, elemE(v, constI(i)), types.Typ[types.Uint8])
			if b.isNum() {
				t += string([]byte{byte(b.I)})
			} else {
				known = false
			}
			bs = append(bs, b)
		}
		if known {
			return strE(t)
		}
		return mk("strof", "", 's', bs...)
	}
	return nil
}

func extractE(t *Expr, i int, k byte) *Expr {
	switch t.Op {
	case "struct":
		return t.Args[i]
	case "ite":
		return iteE(t.Args[0], extractE(t.Args[1], i, k), extractE(t.Args[2], i, k))
	}
	return mk("ex", fmt.Sprint(i), k, t)
}

func (g *symEng) mapVal(st *sstate, m *Expr) *Expr {
	k := mk("mapOf", "", 'o', m)
	if v, ok := st.heap[k]; ok {
		return v
	}
	if m.Op == "makemap" || m == eNil {
		return mk("emptymap", "", 'o')
	}
	if m.Op == "ite" {
		return iteE(m.Args[0], g.mapVal(st, m.Args[1]), g.mapVal(st, m.Args[2]))
	}
	return mk("M0", "", 'o', m)
}

// mapStore changes the map m names; where it names one of two, each under its
// condition.
func (g *symEng) mapStore(st *sstate, m *Expr, T types.Type, f func(old *Expr) *Expr) {
	var walk func(m *Expr, cond []*Expr)
	walk = func(m *Expr, cond []*Expr) {
		if m.Op == "ite" {
			walk(m.Args[1], append(append([]*Expr(nil), cond...), m.Args[0]))
			walk(m.Args[2], append(append([]*Expr(nil), cond...), notE(m.Args[0])))
			return
		}
		if m == eNil {
			return
		}
		k := mk("mapOf", "", 'o', m)
		g.noteWrite(k, T)
		old := g.mapVal(st, m)
		v := f(old)
		if len(cond) > 0 {
			v = iteE(conj(cond), v, old)
		}
		st.heap[k] = v
	}
	walk(m, nil)
}

// mapKeys lists the keys of a map all of whose keys are known constants.
func mapKeys(mv *Expr) ([]*Expr, bool) {
	switch mv.Op {
	case "emptymap":
		return nil, true
	case "mapput", "mapdel":
		ks, ok := mapKeys(mv.Args[0])
		if !ok || !mv.Args[1].isConst() {
			return nil, false
		}
		var out []*Expr
		for _, k := range ks {
			if k != mv.Args[1] {
				out = append(out, k)
			}
		}
		if mv.Op == "mapput" {
			out = append(out, mv.Args[1])
		}
		return out, true
	}
	return nil, false
}

// mapNext is one turn of a range over a map whose keys are all known. The
// language leaves the order open: the order of insertion, or its reverse when
// g.mapsBack is set.
func (g *symEng) mapNext(fr *sframe, st *sstate, r *ssa.Range, it *Expr, tt *types.Tuple) *Expr {
	if len(g.iters) == 0 || !g.iters[len(g.iters)-1].isNum() {
		return nil
	}
	ks, ok := mapKeys(it.Args[0])
	if !ok {
		return nil
	}
	n := g.iters[len(g.iters)-1].I
	if n >= int64(len(ks)) {
		return mk("struct", "tuple", 'o', eFalse, zeroOf(kindOf(tt.At(1).Type())), zeroOf(kindOf(tt.At(2).Type())))
	}
	if len(ks) > 1 {
		g.mapOrder = true
	}
	k := ks[n]
	if g.mapsBack {
		k = ks[int64(len(ks))-1-n]
	}
	v, has := mapGet(g.mapVal(st, g.val(fr, r.X)), k, kindOf(r.X.Type().Underlying().(*types.Map).Elem()))
	if has != eTrue {
		return nil
	}
	return mk("struct", "tuple", 'o', eTrue, k, v)
}

func mapGet(mv, k *Expr, kind byte) (*Expr, *Expr) {
	switch mv.Op {
	case "emptymap":
		return zeroOf(kind), eFalse
	case "mapput", "mapdel":
		v, ok := zeroOf(kind), eFalse
		if mv.Op == "mapput" {
			v, ok = mv.Args[2], eTrue
		}
		if mv.Args[1] == k {
			return v, ok
		}
		if differ(mv.Args[1], k) || mv.Args[1].isConst() && k.isConst() {
			return mapGet(mv.Args[0], k, kind)
		}
		if k.K == 'i' || k.K == 's' {
			same := binE("==", 'b', mv.Args[1], k)
			rv, rok := mapGet(mv.Args[0], k, kind)
			return iteE(same, v, rv), iteE(same, ok, rok)
		}
	case "ite":
		a, ao := mapGet(mv.Args[1], k, kind)
		b, bo := mapGet(mv.Args[2], k, kind)
		return iteE(mv.Args[0], a, b), iteE(mv.Args[0], ao, bo)
	}
	return mk("mapget", "", kind, mv, k), mk("maphas", "", 'b', mv, k)
}

func mapLen(mv *Expr) *Expr {
	switch mv.Op {
	case "emptymap":
		return constI(0)
	case "mapput":
		if k := mv.Args[1].K; k == 'i' || k == 's' {
			_, had := mapGet(mv.Args[0], mv.Args[1], mv.Args[2].K)
			return binE("+", 'i', mapLen(mv.Args[0]), iteE(had, constI(0), constI(1)))
		}
	case "ite":
		return iteE(mv.Args[0], mapLen(mv.Args[1]), mapLen(mv.Args[2]))
	}
	return mk("maplen", "", 'i', mv)
}

// contents is the array a slice shows, from its first element on.
func (g *symEng) contents(st *sstate, s *Expr) *Expr {
	if s == eNil {
		return eZeroA
	}
	if s.Op == "ite" {
		a, b := g.contents(st, s.Args[1]), g.contents(st, s.Args[2])
		if a == nil || b == nil {
			return nil
		}
		return iteE(s.Args[0], a, b)
	}
	r, off := sliceRoot(s)
	if r.Op == "ite" && off != constI(0) || r.Op == "ite" && s != r {
		return nil
	}
	a := st.read(arrKey(r), 'o')
	if off != constI(0) {
		return nil
	}
	return a
}

func (g *symEng) doCall(fr *sframe, cc *ssa.CallCommon, st *sstate, in ssa.Instruction) (*Expr, bool) {
	return g.doCallArgs(fr, cc, st, in, nil)
}

func resultKind(cc *ssa.CallCommon) byte {
	r := cc.Signature().Results()
	if r.Len() == 1 {
		return kindOf(r.At(0).Type())
	}
	return 'o'
}

func (g *symEng) doCallArgs(fr *sframe, cc *ssa.CallCommon, st *sstate, in ssa.Instruction, saved map[ssa.Value]*Expr) (*Expr, bool) {
	get := func(v ssa.Value) *Expr {
		if saved != nil {
			if e, ok := saved[v]; ok {
				return e
			}
		}
		return g.val(fr, v)
	}
	var args []*Expr
	for _, a := range cc.Args {
		args = append(args, get(a))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		return g.builtin(fr, bi.Name(), cc, args, st), true
	}
	ctx := fmt.Sprintf("%s%s@%d/", fr.ctx, opName(fr.fn), instrIndex(in))
	if cc.IsInvoke() {
		recv := get(cc.Value)
		if g.impls != nil {
			if f := g.impls(cc); f != nil {
				ro := mk("as", f.Signature.Recv().Type().String(), 'o', recv)
				if recv.Op == "iface" {
					ro = recv.Args[0]
				}
				return g.inline(f, append([]*Expr{ro}, args...), nil, st, fr, ctx, in)
			}
		}
		if recv.Op == "iface" {
			// the dynamic type is known
			T := cc.Value.Type()
			_ = T
			if f := g.methodOf(recv.Str, cc.Method.Name()); f != nil {
				return g.inline(f, append([]*Expr{recv.Args[0]}, args...), nil, st, fr, ctx, in)
			}
		}
		if recv.Op == "ite" {
			if r, ok := g.invokeIte(recv, cc.Method.Name(), args, st, fr, ctx, in); ok && r != nil {
				return r, true
			}
		}
		return g.unknown("inv:"+cc.Method.Name(), resultKindT(cc), append([]*Expr{recv}, args...), cc, st, recv), true
	}
	if f := cc.StaticCallee(); f != nil {
		var binds []*Expr
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			e := get(mc)
			binds = e.Args
		}
		return g.inline(f, args, binds, st, fr, ctx, in)
	}
	fv := get(cc.Value)
	if fv.Op == "closure" {
		return g.inline(g.clos[fv.Str], args, fv.Args, st, fr, ctx, in)
	}
	return g.unknown("dyn", resultKindT(cc), append([]*Expr{fv}, args...), cc, st, fv), true
}

func instrIndex(in ssa.Instruction) int {
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == in {
				return n
			}
			n++
		}
	}
	return -1
}

func resultKindT(cc *ssa.CallCommon) byte { return resultKind(cc) }

func (g *symEng) methodOf(typ, name string) *ssa.Function {
	for _, f := range g.w.Funcs {
		if f.Name() == name && f.Signature.Recv() != nil && f.Signature.Recv().Type().String() == typ {
			return f
		}
	}
	// promoted through an embedded field
	path, ptr := strings.CutPrefix(typ, "*")
	i := strings.LastIndex(path, ".")
	if i < 0 {
		return nil
	}
	for _, p := range g.w.Prog.AllPackages() {
		if p.Pkg.Path() != path[:i] {
			continue
		}
		tn, ok := p.Pkg.Scope().Lookup(path[i+1:]).(*types.TypeName)
		if !ok {
			continue
		}
		T := tn.Type()
		if ptr {
			T = types.NewPointer(T)
		}
		if sel := g.w.Prog.MethodSets.MethodSet(T).Lookup(p.Pkg, name); sel != nil {
			return g.w.Prog.MethodValue(sel)
		}
	}
	return nil
}

// unknown stands for a call whose code is not available: a function of its
// arguments and of how often it was called, which may rewrite slices it gets.
func (g *symEng) unknown(name string, k byte, args []*Expr, cc *ssa.CallCommon, st *sstate, vkey *Expr) *Expr {
	vk := mk("ver", name, 'o', vkey)
	if strings.HasPrefix(name, "ext:(*math/rand.Rand)") {
		vk = mk("ver", "ext:rand", 'o', vkey)
	}
	v := st.read(vk, 'o')
	sig := cc.Signature()
	as := append(append([]*Expr{}, args...), v)
	for i := 0; i < sig.Params().Len(); i++ {
		a := args[len(args)-sig.Params().Len()+i]
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok && a.Op != "const" {
			r, _ := sliceRoot(a)
			key := arrKey(r)
			old := st.read(key, 'o')
			as = append(as, old)
		}
	}
	res := mk("call", name, k, as...)
	for i := 0; i < sig.Params().Len(); i++ {
		a := args[len(args)-sig.Params().Len()+i]
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok && a.Op != "const" {
			r, _ := sliceRoot(a)
			g.leak(r, sig.Params().At(i).Type())
			st.write(arrKey(r), mk("arrafter", fmt.Sprint(i), 'o', res))
		}
	}
	// it writes through pointers to numbers passed as interfaces
	for i := 0; i < sig.Params().Len(); i++ {
		a := args[len(args)-sig.Params().Len()+i]
		if a.Op != "iface" || !strings.HasPrefix(a.Str, "*") {
			continue
		}
		if b, ok := types.Universe.Lookup(a.Str[1:]).(*types.TypeName); ok && b.Type() != nil {
			g.store(st, a.Args[0], mk("outof", fmt.Sprint(i), kindOf(b.Type()), res), b.Type())
		}
	}
	st.write(vk, mk("tick", "", 'o', res))
	n := sig.Results().Len()
	if n > 1 {
		var vs []*Expr
		for i := 0; i < n; i++ {
			vs = append(vs, mk("ex", fmt.Sprint(i), kindOf(sig.Results().At(i).Type()), res))
		}
		return mk("struct", "tuple", 'o', vs...)
	}
	return res
}

// leak notes storage that code outside the module can write.
func (g *symEng) leak(r *Expr, T types.Type) {
	if g.leaks == nil {
		g.leaks = map[*Expr]types.Type{}
	}
	switch {
	case r.Op == "ite":
		for _, a := range r.Args[1:] {
			b, _ := sliceRoot(a)
			g.leak(b, T)
		}
	case r.Op == "slice":
		g.leak(r.Args[0], T)
	default:
		g.leaks[r] = T
	}
}

// bitsFn is what the functions of math/bits that count bits give.
func bitsFn(name string, x uint64) (int64, bool) {
	base := strings.TrimRight(name, "0123456789")
	switch size := strings.TrimPrefix(name, base); size {
	case "8":
		x = uint64(uint8(x))
	case "16":
		x = uint64(uint16(x))
	case "32":
		x = uint64(uint32(x))
	}
	switch base {
	case "OnesCount":
		return int64(bits.OnesCount64(x)), true
	case "Len":
		return int64(bits.Len64(x)), true
	case "TrailingZeros":
		if x != 0 {
			return int64(bits.TrailingZeros64(x)), true
		}
	case "Reverse":
		n := 64
		if size := strings.TrimPrefix(name, base); size != "" {
			n, _ = strconv.Atoi(size)
		}
		return int64(bits.Reverse64(x) >> (64 - n)), true
	}
	return 0, false
}

var pureExtPkgs = map[string]bool{"math": true, "math/bits": true, "math/cmplx": true, "strings": true, "strconv": true, "fmt": true, "errors": true, "unicode": true, "crypto/md5": true}

// covered collects the functions evaluated, where asked for.
var covered map[string]bool

// gaveUp collects the constructs no evaluation follows.
var gaveUp = map[string]bool{}

func (g *symEng) giveUp(what string) {
	g.uncert = append(g.uncert, what)
	gaveUp[what] = true
	if os.Getenv("VSA_GAVEUP") != "" {
		fmt.Println("gave up:", what)
	}
}

func (g *symEng) inline(f *ssa.Function, args, binds []*Expr, st *sstate, fr *sframe, ctx string, in ssa.Instruction) (*Expr, bool) {
	switch f.Name() {
	case "zzByteOf":
		return byteOfE(args[0], args[1]), true
	case "zzPack", "zzUnpack", "zzPack32", "zzUnpack32": // an address kept in a word
		return args[0], true
	case "_cgoCheckPointer", "_cgoCheckResult", "_Cgo_use", "_cgo_runtime_init_done":
		return eNil, true
	case "zzJoin4", "zzJoin8":
		return joinE(args), true
	case "zzRnd": // what is read back of a number shown with so many decimals
		return rndE(fmt.Sprintf("%%.%df", args[0].I), args[1]), true
	}
	if m := g.w.Models[f.String()]; m != nil {
		return g.inline(m, args, binds, st, fr, ctx, in)
	}
	if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || f.Blocks == nil {
		return g.extern(f, args, st, ctx, in), true
	}
	if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil && !strings.HasPrefix(f.Object().Pkg().Path(), modPath) {
		return g.extern(f, args, st, ctx, in), true
	}
	depth := 0
	for _, s := range g.stack {
		if s == f {
			depth++
		}
		if depth > 3 {
			g.giveUp("recursion through " + f.String())
			return mk("call", "rec:"+f.String(), resultKind(&ssa.CallCommon{Value: f}), args...), true
		}
	}
	if len(g.stack) > 30 {
		panic(symBudget{f.String()})
	}
	if g.opaque != nil && g.opaque(f) {
		cc := &ssa.CallCommon{Value: f}
		for _, a := range f.Params {
			cc.Args = append(cc.Args, a)
		}
		vk := f.Params
		_ = vk
		return g.unknown("fn:"+f.String(), resultKind(cc), args, cc, st, mk("fnid", f.String(), 'o')), true
	}
	if in != nil {
		g.callBlk = in.Block()
	}
	r, ok := g.call(f, args, binds, st, fr, ctx)
	return r, ok
}

func (g *symEng) extern(f *ssa.Function, args []*Expr, st *sstate, ctx string, in ssa.Instruction) *Expr {
	name := f.String()
	k := byte('o')
	if f.Signature.Results().Len() == 1 {
		k = kindOf(f.Signature.Results().At(0).Type())
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	switch name {
	case "math.Max":
		return binE("max", 'd', args[0], args[1])
	case "math.Min":
		return binE("min", 'd', args[0], args[1])
	case "math.IsNaN":
		if g.reals {
			x := args[0]
			for len(x.Args) == 1 && x.Op != "call" {
				x = x.Args[0]
			}
			return constB(x.isNum() && math.IsNaN(x.F) || x.Op == "call" && x.Str == "math.NaN")
		}
	}
	if pkg == "sort" {
		if r, ok := g.sortModel(name, args, st, ctx, in); ok {
			return r
		}
	}
	if pkg == "sync" && strings.HasSuffix(strings.ToLower(name), "lock") {
		return eNil
	}
	// a generator is a stream fixed by its seed
	if name == "math/rand.NewSource" {
		return mk("call", name, k, args...)
	}
	if v, ok := in.(ssa.Value); ok && name == "math/rand.New" && args[0].Op == "call" && args[0].Str == "math/rand.NewSource" {
		o := mk("obj", fmt.Sprintf("%s%s:%s", ctx, opName(in.Parent()), v.Name()), 'o', g.iterArgs()...)
		st.write(mk("ver", "ext:rand", 'o', o), mk("stream", "", 'o', args[0]))
		return o
	}
	if strings.HasPrefix(name, "(*strings.Builder).") {
		c := fldE(args[0], "text", nil)
		switch f.Name() {
		case "String":
			return st.read(c, 's')
		case "Grow":
			return eNil
		case "WriteString", "WriteByte", "WriteRune":
			t := eNil
			switch {
			case f.Name() == "WriteString":
				t = args[1]
			case args[1].isNum() && f.Name() == "WriteByte":
				t = strE(string([]byte{byte(args[1].I)}))
			case args[1].isNum():
				t = strE(string(rune(args[1].I)))
			default:
				t = mk("call", name, 's', args[1])
			}
			var join func(a, b *Expr, d int) *Expr
			join = func(a, b *Expr, d int) *Expr {
				if a.Op == "ite" && d < 4 {
					return iteE(a.Args[0], join(a.Args[1], b, d+1), join(a.Args[2], b, d+1))
				}
				if b.Op == "ite" && d < 4 {
					return iteE(b.Args[0], join(a, b.Args[1], d+1), join(a, b.Args[2], d+1))
				}
				return catE(a, b)
			}
			st.write(c, join(st.read(c, 's'), t, 0))
			if f.Name() == "WriteByte" {
				return eNil
			}
			return mk("struct", "tuple", 'o', lenE(t), eNil)
		}
	}
	if pkg == "time" {
		// the clock gives one reading after another
		now := func() *Expr {
			k := mk("ver", "ext:clock", 'o', mk("fnid", "clock", 'o'))
			t := mk("call", "clock", 'o', st.read(k, 'o'))
			st.write(k, mk("tick", "", 'o', t))
			return t
		}
		sub := func(a, b *Expr) *Expr { return mk("call", "(time.Time).Sub", 'i', a, b) }
		switch name {
		case "time.Now":
			return now()
		case "time.Since":
			return sub(now(), args[0])
		case "(time.Time).Sub":
			return sub(args[0], args[1])
		}
	}
	if pkg == "sync/atomic" {
		op := f.Name()
		T := types.Type(nil)
		if len(args) > 0 {
			if f.Signature.Recv() == nil {
				if pt, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Pointer); ok {
					T = pt.Elem()
				}
			}
		}
		switch {
		case T != nil && strings.HasPrefix(op, "Load"):
			return g.load(st, args[0], T)
		case T != nil && strings.HasPrefix(op, "Store"):
			g.store(st, args[0], args[1], T)
			return eNil
		case T != nil && strings.HasPrefix(op, "Add"):
			v := binE("+", kindOf(T), g.load(st, args[0], T), args[1])
			g.store(st, args[0], v, T)
			return v
		case T != nil && strings.HasPrefix(op, "Swap"):
			v := g.load(st, args[0], T)
			g.store(st, args[0], args[1], T)
			return v
		case T != nil && strings.HasPrefix(op, "CompareAndSwap"):
			v := g.load(st, args[0], T)
			c := binE("==", 'b', v, args[1])
			g.store(st, args[0], iteE(c, args[2], v), T)
			return c
		case T == nil && op == "Swap":
			c := fldE(args[0], "v", nil)
			v := st.read(c, k)
			st.write(c, args[1])
			return v
		case T == nil && op == "CompareAndSwap":
			c := fldE(args[0], "v", nil)
			v := st.read(c, args[1].K)
			eq := binE("==", 'b', v, args[1])
			st.write(c, iteE(eq, args[2], v))
			return eq
		case T == nil && op == "Add":
			c := fldE(args[0], "v", nil)
			v := binE("+", k, st.read(c, k), args[1])
			st.write(c, v)
			return v
		case T == nil && op == "Load":
			return st.read(fldE(args[0], "v", nil), k)
		case T == nil && op == "Store":
			st.write(fldE(args[0], "v", nil), args[1])
			return eNil
		}
	}
	if (pkg == "fmt" || pkg == "strings" || pkg == "strconv") && f.Signature.Recv() == nil {
		as := append([]*Expr(nil), args...)
		for i := range as {
			as[i] = g.listE(st, as[i], f.Signature.Params().At(i).Type())
		}
		if r := g.strModel(name, as, st, in); r != nil {
			return r
		}
	}
	if pkg == "fmt" && strings.Contains(name, "can") && f.Signature.Variadic() {
		// fmt.Sscanf and the like store through the pointers they get
		rest := args[len(args)-1]
		for i := int64(0); i < 4; i++ {
			p := g.load(st, elemE(rest, constI(i)), types.NewInterfaceType(nil, nil))
			if p.Op != "iface" || !strings.HasPrefix(p.Str, "*") {
				break
			}
			if b, ok := types.Universe.Lookup(p.Str[1:]).(*types.TypeName); ok {
				g.store(st, p.Args[0], mk("call", fmt.Sprintf("%s out%d", name, i), kindOf(b.Type()), args[:len(args)-1]...), b.Type())
			}
		}
	}
	if bitsInverse[name] != "" {
		return bitsE(name, args[0])
	}
	if pureExtPkgs[pkg] && f.Signature.Recv() == nil {
		args = append([]*Expr{}, args...)
		for i := range args {
			args[i] = g.listE(st, args[i], f.Signature.Params().At(i).Type())
		}
		n := f.Signature.Results().Len()
		if pkg == "math/bits" && n == 1 && len(args) == 1 && args[0].isNum() {
			if r, ok := bitsFn(f.Name(), uint64(args[0].I)); ok {
				return constI(r)
			}
		}
		if name == "math.Sincos" {
			return mk("struct", "tuple", 'o', mk("call", "math.Sin", 'd', args...), mk("call", "math.Cos", 'd', args...))
		}
		if name == "math.Copysign" {
			// zero has no sign here
			m := mk("call", "math.Abs", 'd', args[0])
			if args[0].isNum() {
				m = constF(math.Abs(args[0].F), 'd')
			}
			return iteE(binE("<", 'b', args[1], constF(0, 'd')), binE("-", 'd', constF(0, 'd'), m), m)
		}
		if n > 1 {
			var vs []*Expr
			for i := 0; i < n; i++ {
				vs = append(vs, mk("call", name+"#"+fmt.Sprint(i), kindOf(f.Signature.Results().At(i).Type()), args...))
			}
			return mk("struct", "tuple", 'o', vs...)
		}
		if v, ok := foldMath(name, args); ok {
			return constF(v, k)
		}
		return mk("call", name, k, args...)
	}
	cc := &ssa.CallCommon{Value: f}
	vkey := mk("fnid", name, 'o')
	if f.Signature.Recv() != nil && len(args) > 0 {
		vkey = args[0]
	}
	return g.unknown("ext:"+name, k, args, cc, st, vkey)
}

func (g *symEng) builtin(fr *sframe, name string, cc *ssa.CallCommon, args []*Expr, st *sstate) *Expr {
	switch name {
	case "len":
		switch T := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return mapLen(g.mapVal(st, args[0]))
		case *types.Array:
			return constI(T.Len())
		case *types.Pointer:
			return constI(T.Elem().Underlying().(*types.Array).Len())
		}
		return lenE(args[0])
	case "cap":
		if args[0].Op == "make" {
			return args[0].Args[0]
		}
		if args[0] == eNil {
			return constI(0)
		}
		return mk("cap", "", 'i', args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		// append(s, xs...): the new elements are a slice
		old := eZeroA
		if args[0] != eNil {
			r, _ := sliceRoot(args[0])
			if c := g.contents(st, args[0]); c != nil {
				old = c
			} else if r.Op == "ite" {
				old = mk("arrOfIte", "", 'o', r)
			} else {
				old = st.read(arrKey(r), 'o')
			}
		}
		n := lenE(args[1])
		res := mk("append", fmt.Sprintf("%s:%d:%d", fr.ctx+opName(fr.fn), len(g.iters), cc.Pos()), 'o', append([]*Expr{args[0], n, old}, g.iterArgs()...)...)
		arr := mk("A0", "", 'o', res)
		short := n.isNum() && n.I <= 16
		if st2, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && !short && structOf(st2.Elem()) == nil {
			short = maxLeaf(n) <= 8
		}
		if short && old != nil {
			base := lenE(args[0])
			a := old
			if _, off := sliceRoot(args[0]); off != constI(0) {
				a = mk("A0", "", 'o', res)
			}
			if st2, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok {
				ET := st2.Elem()
				if structOf(ET) != nil && base.isNum() && base.I <= 16 {
					for i := int64(0); i < base.I; i++ {
						g.store(st, mk("elem", "", 'o', res, constI(i)), g.load(st, elemE(args[0], constI(i)), ET), ET)
					}
				}
				for i, m := int64(0), maxLeaf(n); i < m; i++ {
					src := elemE(args[1], constI(i))
					if structOf(ET) != nil {
						dst := mk("elem", "", 'o', res, binE("+", 'i', base, constI(i)))
						g.store(st, dst, g.load(st, src, ET), ET)
						continue
					}
					v := g.load(st, src, ET)
					if !n.isNum() {
						v = iteV(binE("<", 'b', constI(i), n), v, selE(a, binE("+", 'i', base, constI(i)), kindOf(ET)))
					}
					a = storeE(a, binE("+", 'i', base, constI(i)), v)
				}
			}
			arr = a
		} else {
			r, off := sliceRoot(args[1])
			arr = mk("concat", "", 'o', old, lenE(args[0]), st.read(arrKey(r), 'o'), off, n)
		}
		st.write(arrKey(res), arr)
		return res
	case "copy":
		dst, src := args[0], args[1]
		dr, doff := sliceRoot(dst)
		n := binE("min", 'i', lenE(dst), lenE(src))
		if src.K == 's' || dst == eNil {
			return n
		}
		sr, soff := sliceRoot(src)
		sa := eZeroA
		if src != eNil {
			sa = st.read(arrKey(sr), 'o')
		}
		key := arrKey(dr)
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && maxLeaf(n) <= 8 && structOf(sl.Elem()) == nil {
			a := st.read(key, 'o')
			k := kindOf(sl.Elem())
			for i, m := int64(0), maxLeaf(n); i < m; i++ {
				to := binE("+", 'i', doff, constI(i))
				v := iteV(binE("<", 'b', constI(i), n), selE(sa, binE("+", 'i', soff, constI(i)), k), selE(a, to, k))
				a = mk("store", "", 'o', a, to, v)
			}
			st.write(key, a)
			return n
		}
		if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && structOf(sl.Elem()) != nil {
			// element by element: the fields have cells of their own
			m := maxLeaf(n)
			if m > 64 {
				if g.peel > 0 {
					g.giveUp("copy of records in " + fr.fn.String())
				}
				st.write(key, mk("copied", "", 'o', st.read(key, 'o'), doff, sa, soff, n))
				return n
			}
			vs := make([]*Expr, m)
			for i := range vs {
				vs[i] = g.load(st, elemE(src, constI(int64(i))), sl.Elem())
			}
			for i, v := range vs {
				to := elemE(dst, constI(int64(i)))
				g.store(st, to, iteV(binE("<", 'b', constI(int64(i)), n), v, g.load(st, to, sl.Elem())), sl.Elem())
			}
			return n
		}
		st.write(key, mk("copied", "", 'o', st.read(key, 'o'), doff, sa, soff, n))
		return n
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			g.noteWrite(mk("mapOf", "", 'o', args[0]), cc.Args[0].Type())
			st.heap[mk("mapOf", "", 'o', args[0])] = mk("emptymap", "", 'o')
			return eNil
		}
		r, off := sliceRoot(args[0])
		key := arrKey(r)
		if off == constI(0) && args[0] == r {
			st.write(key, eZeroA)
		} else {
			st.write(key, mk("fill", "part", 'o', st.read(key, 'o'), off, binE("+", 'i', off, lenE(args[0])), zeroOf(kindOf(cc.Args[0].Type().Underlying().(*types.Slice).Elem())), holeAt(len(g.iters))))
		}
		return eNil
	case "delete":
		g.mapStore(st, args[0], cc.Args[0].Type(), func(old *Expr) *Expr {
			if old.Op == "emptymap" {
				return old
			}
			return mk("mapdel", "", 'o', old, args[1])
		})
		return eNil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = binE(name, r.K, r, a)
		}
		return r
	case "real", "imag", "complex":
		return mk("call", name, resultKind(cc), args...)
	case "print", "println", "recover", "close", "panic":
		return eNil
	case "ssa:wrapnilchk":
		return args[0]
	}
	return mk("call", "builtin:"+name, resultKind(cc), args...)
}

// peelLoop takes a loop apart when whether it goes on is known at each turn
// and it ends within g.peel iterations.
func (g *symEng) peelLoop(fr *sframe, l *sloop, st0 *sstate, phis []*ssa.Phi, inits []*Expr) ([]edgeOut, bool) {
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	for _, v := range inits {
		if v == nil {
			return nil, false
		}
	}
	_ = iff
	st, vals := st0.clone(), inits
	var outs []edgeOut
	// what the loop defines and later code uses
	var live []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.blocks[r.Block()] {
					live = append(live, v)
					break
				}
			}
		}
	}
	type exit struct {
		n   int
		env map[ssa.Value]*Expr
	}
	var exits []exit
	g.quiet++
	defer func() { g.quiet-- }()
	for n := 0; n <= g.peel; n++ {
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
		nd := len(fr.defers)
		for _, v := range live {
			if _, ok := v.(*ssa.Phi); !ok {
				delete(fr.env, v)
			}
		}
		g.iters = append(g.iters, constI(int64(n)))
		res := g.region(fr, l.blocks, l.head, st, l)
		g.iters = g.iters[:len(g.iters)-1]
		if len(fr.defers) != nd {
			fr.defers = fr.defers[:nd]
			return nil, false
		}
		var backs []edgeOut
		stay := false
		for _, o := range res {
			if o.to == l.head {
				backs = append(backs, o)
				stay = true
			} else if o.to == nil {
				return nil, false // a return from inside
			} else {
				outs = append(outs, o)
				x := exit{n, map[ssa.Value]*Expr{}}
				for _, v := range live {
					if e := fr.env[v]; e != nil {
						x.env[v] = e
					}
				}
				exits = append(exits, x)
			}
		}
		if !stay {
			if len(outs) == 0 || exits[0].n == n {
				return outs, true
			}
			// left at different turns: what later code sees depends on which
			base := len(st0.pc)
			for _, v := range live {
				var r *Expr
				for i := len(outs) - 1; i >= 0; i-- {
					e := exits[i].env[v]
					if e == nil {
						continue
					}
					pc := outs[i].st.pc
					if len(pc) < base {
						return nil, false
					}
					if r == nil {
						r = e
					} else {
						r = iteE(conj(pc[base:]), e, r)
					}
				}
				if r != nil {
					fr.env[v] = r
				}
			}
			return outs, true
		}
		st, vals = mergeEdges(backs, func(o edgeOut) []*Expr {
			var vs []*Expr
			for _, p := range phis {
				vs = append(vs, g.val(fr, p.Edges[predIndex(l.head, o.from)]))
			}
			return vs
		})
		st = st.clone()
	}
	return nil, false
}

// loop closes a natural loop over its recurrence.
func (g *symEng) loop(fr *sframe, l *sloop, st0 *sstate, phis []*ssa.Phi, inits []*Expr) []edgeOut {
	if g.peel > 0 {
		if outs, ok := g.peelLoop(fr, l, st0, phis, inits); ok {
			return outs
		}
	}
	d := len(g.iters)
	base := len(st0.pc)
	bvs := make([]*Expr, len(phis))
	for i, p := range phis {
		bvs[i] = mk("bv", fmt.Sprintf("φ%d.%d", d, i), kindOf(p.Type()))
	}
	it := mk("bv", fmt.Sprintf("it%d", d), 'i')
	ind := -1
	for i, p := range phis {
		if kindOf(p.Type()) == 'i' && ind < 0 {
			ind = i
		}
	}
	if ind >= 0 {
		it = bvs[ind]
	}
	carried := map[*Expr]*Expr{} // key -> μ
	family := map[*Expr]quant{}  // key(•) -> the cells an iteration changes through an inner loop
	var outs, backs []edgeOut
	var latch *sstate
	var lvals []*Expr
	facts := []*Expr{}
	g.quiet++
	var start *sstate
	run := func() {
		st := st0.clone()
		for k, mu := range carried {
			st.heap[k] = mu
		}
		for _, k := range sortedQ(family) {
			st.quants = addQuants(st.quants, []quant{family[k]})
		}
		st.pc = append(st.pc, facts...)
		start = st.clone()
		for i, p := range phis {
			fr.env[p] = bvs[i]
		}
		nd := len(fr.defers)
		g.iters = append(g.iters, it)
		res := g.region(fr, l.blocks, l.head, st, l)
		g.iters = g.iters[:len(g.iters)-1]
		fr.defers = fr.defers[:nd]
		outs, backs = nil, nil
		for _, o := range res {
			if o.to == l.head {
				backs = append(backs, o)
			} else {
				outs = append(outs, o)
			}
		}
		latch, lvals = nil, nil
		if len(backs) > 0 {
			latch, lvals = mergeEdges(backs, func(o edgeOut) []*Expr {
				var vs []*Expr
				for _, p := range phis {
					vs = append(vs, g.val(fr, p.Edges[predIndex(l.head, o.from)]))
				}
				return vs
			})
		}
	}
	hole := holeAt(d)
	mentionsIt := func(k *Expr) bool { return k.hasFree(it) }
	injective := false // the iteration variable never repeats
	for round := 0; round < 12; round++ {
		run()
		if latch == nil {
			break
		}
		changed := false
		for _, k := range sortedKeys(latch.heap) {
			if k.bound && mentionsIt(k) {
				continue
			}
			v := latch.heap[k]
			if v == start.read(k, v.K) || carried[k] != nil {
				continue
			}
			carried[k] = mk("bv", fmt.Sprintf("μ%d.%d", d, k.ID), v.K)
			changed = true
		}
		for _, q := range latch.quants {
			if _, ok := family[q.key]; ok || hasQuant(start.quants, q) {
				continue
			}
			if mentionsIt(q.key) {
				continue // every iteration has its own
			}
			app := mk("app", "", q.val.K, mk("bv", fmt.Sprintf("μ%d.%d", d, q.key.ID), q.val.K), q.hole)
			family[q.key] = quant{q.key, app, constI(0), constI(0), q.hole, true, eTrue}
			changed = true
		}
		// facts about induction variables
		nf := []*Expr{}
		for i := range phis {
			if bvs[i].K != 'i' || lvals[i] == nil || inits[i] == nil {
				continue
			}
			dlt := binE("-", 'i', lvals[i], bvs[i])
			if dlt.isNum() && dlt.I > 0 {
				nf = append(nf, binE("<=", 'b', inits[i], bvs[i]))
			} else if dlt.isNum() && dlt.I < 0 {
				nf = append(nf, binE("<=", 'b', bvs[i], inits[i]))
			}
			if i == ind {
				injective = dlt.isNum() && dlt.I != 0
			}
		}
		if len(nf) != len(facts) {
			facts = nil
			for _, f := range nf {
				if f != eTrue {
					facts = append(facts, f)
				}
			}
			if round == 0 {
				changed = true
			}
		}
		if !changed {
			break
		}
		if round == 11 {
			panic(symBudget{"loop in " + fr.fn.String()})
		}
	}
	g.quiet--
	if g.quiet == 0 {
		run() // report obligations on the stable state
	}
	if latch == nil {
		// the body never comes back: not a loop
		return outs
	}
	ls := &loopSum{fr: fr, loop: l, depth: d, phis: phis, start: start, latch: latch}
	for i := range phis {
		ls.bvs = append(ls.bvs, bvs[i])
		ls.inits = append(ls.inits, inits[i])
		ls.steps = append(ls.steps, lvals[i])
	}
	for _, k := range sortedKeys(carried) {
		ls.keys = append(ls.keys, k)
		ls.bvs = append(ls.bvs, carried[k])
		ls.inits = append(ls.inits, st0.read(k, carried[k].K))
		ls.steps = append(ls.steps, latch.heap[k])
	}
	for _, k := range sortedQ(family) {
		b := family[k].val.Args[0]
		ls.bvs = append(ls.bvs, b)
		ls.inits = append(ls.inits, st0.read(k, b.K))
		ls.steps = append(ls.steps, latch.read(k, b.K))
	}
	if ind >= 0 && injective {
		g.elementwise(ls, len(phis), ind, latch)
	}
	for b := range l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c := fr.env[iff.Cond]
		if c == nil {
			c = g.val(fr, iff.Cond)
		}
		every := true
		for _, x := range l.latch {
			every = every && b.Dominates(x)
		}
		if !every {
			continue
		}
		switch {
		case !l.blocks[b.Succs[0]]:
			ls.conts = append(ls.conts, notE(c))
		case !l.blocks[b.Succs[1]]:
			ls.conts = append(ls.conts, c)
		}
	}
	// exit values: loop(inits…, recurrence variables…, steps…, continue, exits…)
	var largs []*Expr
	largs = append(largs, ls.inits...)
	largs = append(largs, ls.bvs...)
	largs = append(largs, ls.steps...)
	sort.Slice(ls.conts, func(i, j int) bool { return ls.conts[i].ID < ls.conts[j].ID })
	largs = append(largs, conj(ls.conts))
	for _, o := range outs {
		largs = append(largs, conj(o.st.pc[base:]))
	}
	loopE := mk("loop", fmt.Sprintf("%d:%d", d, len(ls.bvs)), 'o', largs...)
	ls.expr = loopE
	if g.onLoop != nil && g.quiet == 0 {
		g.onLoop(ls)
	}
	headOnly := true
	for _, o := range outs {
		if o.from != l.head {
			headOnly = false
		}
	}
	// range of the iteration variable, when it counts upwards by one
	var lo, hi, end *Expr
	if ind >= 0 && injective && headOnly && len(outs) >= 1 {
		dlt := binE("-", 'i', lvals[ind], bvs[ind])
		if dlt == constI(-1) {
			// counting down while n <= φ+c
			if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
				c := g.val(fr, iff.Cond)
				if !l.blocks[l.head.Succs[0]] {
					c = notE(c)
				}
				if c.Op == "<=" {
					n := c.Args[0]
					dl := binE("-", 'i', c.Args[1], bvs[ind])
					if dl.isNum() && !usesBV(n, d) {
						lo = binE("-", 'i', n, dl)
						hi = binE("+", 'i', inits[ind], constI(1))
						end = binE("+", 'i', iteE(binE("<=", 'b', lo, hi), lo, hi), constI(-1))
					}
				}
			}
		}
		if dlt == constI(1) {
			// exit when !(φ+c <= n)
			if iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
				c := g.val(fr, iff.Cond)
				if !l.blocks[l.head.Succs[0]] {
					c = notE(c)
				}
				if c.Op == "<=" {
					// a + k <= n form
					dl := binE("-", 'i', c.Args[0], bvs[ind])
					n := c.Args[1]
					if dl.isNum() && !usesBV(n, d) {
						lo = inits[ind]
						hi = binE("+", 'i', n, constI(1-dl.I)) // exclusive bound on φ
					} else {
						// k <= n - φ
						m := binE("+", 'i', c.Args[1], bvs[ind])
						if c.Args[0].isNum() && !usesBV(m, d) {
							lo = inits[ind]
							hi = binE("+", 'i', m, constI(1-c.Args[0].I))
						}
					}
				}
			}
		}
	}
	exitOf := map[*Expr]*Expr{}
	for i, bv := range ls.bvs {
		e := mk("loopexit", fmt.Sprint(i), bv.K, loopE)
		exitOf[bv] = e
	}
	exitOf[it] = func() *Expr {
		if e := exitOf[it]; e != nil {
			return e
		}
		e := mk("loopexit", "it", 'i', loopE)
		return e
	}()
	if lo != nil {
		if end == nil {
			end = iteE(binE("<=", 'b', lo, hi), hi, lo)
		}
		exitOf[bvs[ind]] = end
	}
	// element-wise loops over arrays
	fillOf := map[*Expr]*Expr{}
	var newq []quant
	closed := map[*Expr]bool{} // cells of single iterations with a closed form
	closedQ := map[*Expr]bool{}
	if lo != nil {
		toHole := func(e *Expr, shift int64) *Expr {
			return subst(e, map[*Expr]*Expr{bvs[ind]: binE("+", 'i', hole, constI(-shift))}, map[*Expr]*Expr{})
		}
		for j, k := range ls.keys {
			mu := ls.bvs[len(phis)+j]
			step := ls.steps[len(phis)+j]
			if k.Op == "arrOf" && step.Op == "store" && step.Args[0] == mu {
				sh := binE("-", 'i', step.Args[1], bvs[ind])
				if sh.isNum() {
					v := toHole(step.Args[2], sh.I)
					// reads of the same element see the old contents
					pre := st0.read(k, 'o')
					v = subst(v, map[*Expr]*Expr{mk("sel", "", v.K, mu, hole): selE(pre, hole, v.K)}, map[*Expr]*Expr{})
					if !usesBV(v, d) {
						flo := binE("+", 'i', lo, sh)
						fhi := binE("+", 'i', hi, sh)
						mode := "part"
						if flo == constI(0) && g.lenOfRoot(st0, k.Args[0], fhi) {
							mode = "all"
						}
						if mode == "all" && v.isConst() && v == zeroOf(v.K) {
							fillOf[mu] = eZeroA
						} else {
							fillOf[mu] = mk("fill", mode, 'o', pre, flo, fhi, v, hole)
						}
					}
				}
			}
		}
		for _, k := range sortedKeys(latch.heap) {
			if !k.bound || !mentionsIt(k) {
				continue
			}
			// every index in the key must be the iteration variable plus one constant
			sh, ok := indexShift(k, bvs[ind])
			if !ok {
				continue
			}
			kk := toHole(k, sh)
			v := toHole(latch.heap[k], sh)
			v = subst(v, fillOf, map[*Expr]*Expr{})
			if usesBV(kk, d) || usesBV(v, d) {
				continue
			}
			closed[k] = true
			if ik := latch.heap[k]; ik == st0.read(k, ik.K) {
				continue
			}
			flo := binE("+", 'i', lo, constI(sh))
			fhi := binE("+", 'i', hi, constI(sh))
			all := flo == constI(0) && g.coversHole(kk, fhi, hole)
			newq = append(newq, quant{kk, v, flo, fhi, hole, all, eTrue})
		}
		for _, q := range latch.quants {
			if !mentionsIt(q.key) || hasQuant(start.quants, q) {
				continue
			}
			sh, ok := indexShift(q.key, bvs[ind])
			if !ok {
				continue
			}
			gen := func(e *Expr) *Expr { return subst(toHole(e, sh), fillOf, map[*Expr]*Expr{}) }
			n := quant{toHole(q.key, sh), gen(q.val), gen(q.lo), gen(q.hi), q.hole, q.all, gen(q.cond)}
			if usesBV(n.key, d) || usesBV(n.val, d) || usesBV(n.lo, d) || usesBV(n.hi, d) || usesBV(n.cond, d) {
				continue
			}
			closedQ[q.key] = true
			flo := binE("+", 'i', lo, constI(sh))
			fhi := binE("+", 'i', hi, constI(sh))
			if !(flo == constI(0) && g.coversHole(n.key, fhi, hole)) {
				n.cond = andE(n.cond, andE(binE("<=", 'b', flo, hole), binE("<", 'b', hole, fhi)))
			}
			newq = append(newq, n)
		}
	}
	for mu, e := range fillOf {
		exitOf[mu] = e
	}
	for i := range outs {
		o := &outs[i]
		memo := map[*Expr]*Expr{}
		for k, v := range o.st.heap {
			if k.bound && mentionsIt(k) {
				delete(o.st.heap, k)
				continue
			}
			if v.bound {
				o.st.heap[k] = subst(v, exitOf, memo)
			}
		}
		for j := base; j < len(o.st.pc); j++ {
			o.st.pc[j] = subst(o.st.pc[j], exitOf, memo)
		}
		if len(outs) == 1 {
			// the only way out: its condition is a fact
			if o.from == l.head {
				var keep []*Expr
				for _, p := range o.st.pc[base:] {
					if p != eTrue && p != eFalse {
						keep = append(keep, p)
					}
				}
				o.st.pc = append(o.st.pc[:base], keep...)
			}
		}
		if o.ret != nil {
			o.ret = subst(o.ret, exitOf, memo)
		}
		var kept []quant
		for _, q := range o.st.quants {
			if !mentionsIt(q.key) {
				kept = append(kept, q)
			}
		}
		o.st.quants = kept
		for j, q := range o.st.quants {
			o.st.quants[j].val = subst(q.val, exitOf, memo)
			o.st.quants[j].cond = subst(q.cond, exitOf, memo)
			o.st.quants[j].lo = subst(q.lo, exitOf, memo)
			o.st.quants[j].hi = subst(q.hi, exitOf, memo)
		}
		o.st.quants = addQuants(o.st.quants, newq)
		{
			// the other cells of single iterations are no longer known
			for _, k := range sortedKeys(latch.heap) {
				if k.bound && mentionsIt(k) && !closed[k] && latch.heap[k] != st0.read(k, latch.heap[k].K) {
					kk := subst(k, map[*Expr]*Expr{it: hole}, map[*Expr]*Expr{})
					vv := subst(latch.heap[k], exitOf, memo)
					vv = mk("someiter", "", vv.K, vv, hole)
					o.st.quants = addQuants(o.st.quants, []quant{{kk, vv, constI(0), constI(0), hole, true, eTrue}})
				}
			}
			for _, q := range latch.quants {
				if !mentionsIt(q.key) || closedQ[q.key] || hasQuant(start.quants, q) {
					continue
				}
				kk := subst(q.key, map[*Expr]*Expr{it: hole}, map[*Expr]*Expr{})
				vv := subst(q.val, exitOf, memo)
				vv = mk("someiter", "", vv.K, vv, hole)
				o.st.quants = addQuants(o.st.quants, []quant{{kk, vv, constI(0), constI(0), q.hole, true, eTrue}})
			}
		}
	}
	// values computed in the loop and used after it
	memo := map[*Expr]*Expr{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if e := fr.env[v]; e != nil && e.bound {
					fr.env[v] = subst(e, exitOf, memo)
				}
			}
		}
	}
	return outs
}

func sortedQ(m map[*Expr]quant) []*Expr {
	var ks []*Expr
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks
}

func hasQuant(qs []quant, q quant) bool {
	for _, p := range qs {
		if p == q {
			return true
		}
	}
	return false
}

// elementwise: an array that each iteration changes only at its own index is
// read there, and beyond, as it was before the loop.
func (g *symEng) elementwise(ls *loopSum, np, ind int, latch *sstate) {
	phi := ls.bvs[ind]
	up := binE("-", 'i', ls.steps[ind], phi).I > 0
	m := map[*Expr]*Expr{}
	type ew struct {
		mu, pre *Expr
		sh      int64
	}
	var ews []ew
	for j := range ls.keys {
		i := np + j
		mu := ls.bvs[i]
		if ls.keys[j].Op != "arrOf" {
			continue
		}
		sh, val, ok := ownStore(ls.steps[i], mu, phi)
		if !ok || val == nil {
			continue
		}
		ls.steps[i] = storeE(mu, binE("+", 'i', phi, constI(sh)), val)
		ews = append(ews, ew{mu, ls.inits[i], sh})
	}
	if len(ews) == 0 {
		return
	}
	seen := map[*Expr]bool{}
	collect := func(e *Expr) {
		walkExpr(e, seen, func(x *Expr) bool {
			if x.Op == "sel" {
				for _, w := range ews {
					if x.Args[0] == w.mu {
						k := binE("-", 'i', x.Args[1], phi)
						if k.isNum() && (up && k.I >= w.sh || !up && k.I <= w.sh) {
							m[x] = selE(w.pre, x.Args[1], x.K)
						}
					}
				}
			}
			return x.bound
		})
	}
	for _, s := range ls.steps {
		if s != nil {
			collect(s)
		}
	}
	for _, k := range sortedKeys(latch.heap) {
		collect(latch.heap[k])
		collect(k)
	}
	if len(m) == 0 {
		return
	}
	memo := map[*Expr]*Expr{}
	for i, s := range ls.steps {
		if s != nil {
			ls.steps[i] = subst(s, m, memo)
		}
	}
	nh := map[*Expr]*Expr{}
	for k, v := range latch.heap {
		if v.bound {
			v = subst(v, m, memo)
		}
		if k.bound {
			k = subst(k, m, memo)
		}
		nh[k] = v
	}
	latch.heap = nh
}

// ownStore: the step changes the array at index φ+sh only, to val.
func ownStore(step, mu, phi *Expr) (sh int64, val *Expr, ok bool) {
	switch {
	case step == mu:
		return 0, nil, true
	case step.Op == "store" && step.Args[0] == mu:
		d := binE("-", 'i', step.Args[1], phi)
		return d.I, step.Args[2], d.isNum()
	case step.Op == "ite":
		s1, v1, ok1 := ownStore(step.Args[1], mu, phi)
		s2, v2, ok2 := ownStore(step.Args[2], mu, phi)
		if !ok1 || !ok2 || v1 == nil && v2 == nil || v1 != nil && v2 != nil && s1 != s2 {
			return 0, nil, false
		}
		s := s1
		k := byte(0)
		if v1 == nil {
			s, k = s2, v2.K
		} else {
			k = v1.K
		}
		old := selE(mu, binE("+", 'i', phi, constI(s)), k)
		if v1 == nil {
			v1 = old
		}
		if v2 == nil {
			v2 = old
		}
		return s, iteE(step.Args[0], v1, v2), true
	}
	return 0, nil, false
}

// usesBV: the expression has a free loop variable of depth d or deeper, other
// than the hole that replaces it.
func usesBV(e *Expr, d int) bool {
	for _, f := range e.free {
		if f.depth >= d && !strings.HasPrefix(f.Str, "•") {
			return true
		}
	}
	return false
}

// indexShift: all indices of a key that mention the variable are var + c.
func indexShift(k, bv *Expr) (int64, bool) {
	sh, _, ok := indexShiftW(k, bv)
	return sh, ok
}

// indexShiftW: strong means that an index fixed the shift; the iteration an
// object was made in only names it.
func indexShiftW(k, bv *Expr) (sh int64, strong, ok bool) {
	have := false
	ok = true
	set := func(d int64, str bool) {
		switch {
		case !have, str && !strong:
			have, sh, strong = true, d, str
		case str && d != sh:
			ok = false
		}
	}
	walkExpr(k, map[*Expr]bool{}, func(e *Expr) bool {
		if !e.bound || !ok {
			return false
		}
		check := func(i *Expr, str bool) {
			if !i.hasFree(bv) {
				return
			}
			d := binE("-", 'i', i, bv)
			if !d.isNum() {
				ok = false
				return
			}
			set(d.I, str)
		}
		switch e.Op {
		case "elem", "sel":
			check(e.Args[1], true)
			if a := e.Args[0]; a.hasFree(bv) {
				s, str, o := indexShiftW(a, bv)
				if !o {
					ok = false
				} else {
					set(s, str)
				}
			}
			return false
		case "obj":
			for _, a := range e.Args {
				check(a, false)
			}
			return false
		case "make":
			for _, a := range e.Args {
				if a.bound && a != bv {
					ok = false
				} else if a == bv {
					set(0, false)
				}
			}
			return false
		}
		return true
	})
	return sh, strong, ok && have
}

func usesExpr(e, x *Expr) bool {
	f := false
	walkExpr(e, map[*Expr]bool{}, func(y *Expr) bool {
		if y == x {
			f = true
		}
		return !f
	})
	return f
}

// lenOfRoot: n is the length of the array rooted at root.
func (g *symEng) lenOfRoot(st *sstate, root, n *Expr) bool {
	if c, ok := g.arrLen[root]; ok && n == constI(c) {
		return true
	}
	return sameLen(n, lenE(root))
}

// coversHole: n is the length of every collection indexed by • in the key.
func (g *symEng) coversHole(k, n, hole *Expr) bool {
	ok, any := true, false
	walkExpr(k, map[*Expr]bool{}, func(e *Expr) bool {
		switch e.Op {
		case "elem":
			if e.Args[1] == hole {
				any = true
				if !g.lenOfRoot(nil, e.Args[0], n) {
					ok = false
				}
			}
		case "sel":
			if e.Args[1] == hole {
				any = true
				a := e.Args[0]
				for a.Op == "store" || a.Op == "fill" {
					a = a.Args[0]
				}
				if a.Op != "A0" || !g.lenOfRoot(nil, a.Args[0], n) {
					ok = false
				}
			}
		}
		return true
	})
	return ok && any
}

// symRun evaluates one function from an unconstrained entry state.
type symResult struct {
	st  *sstate
	ret *Expr
	ok  bool
	err string
}

func argSyms(f *ssa.Function) []*Expr {
	var as []*Expr
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			as = append(as, sym("recv#"+typeKey(p.Type()), kindOf(p.Type())))
			continue
		}
		n := i
		if f.Signature.Recv() != nil {
			n--
		}
		name := fmt.Sprintf("a%d", n)
		if k := kindOf(p.Type()); k == 'o' {
			name += "#" + typeKey(p.Type())
		}
		as = append(as, sym(name, kindOf(p.Type())))
	}
	return as
}

func (g *symEng) run(f *ssa.Function, args []*Expr, st *sstate) symResult {
	return g.runIn(f, args, st, "")
}

// runIn evaluates a call; ctx tells what it allocates from other calls of f.
func (g *symEng) runIn(f *ssa.Function, args []*Expr, st *sstate, ctx string) (r symResult) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(symBudget); ok {
				r.err = "too large to evaluate: " + b.where
				return
			}
			panic(x)
		}
	}()
	if st == nil {
		st = &sstate{heap: map[*Expr]*Expr{}}
	}
	if args == nil {
		args = argSyms(f)
	}
	g.steps = 0
	g.iters, g.stack, g.quiet, g.allocs = nil, nil, 0, nil
	r.ret, r.ok = g.call(f, args, nil, st, nil, ctx)
	r.st = st
	return r
}

func keyName(k *Expr) string {
	s := k.render(20)
	return strings.TrimPrefix(s, "recv.")
}

func sortedByName(ks []*Expr) []*Expr {
	sort.Slice(ks, func(i, j int) bool { return keyName(ks[i]) < keyName(ks[j]) })
	return ks
}

// wrapConst takes a folded number of a short integer type around its range.
func wrapConst(e *Expr, t types.Type) *Expr {
	if e.Op != "const" || e.K != 'i' {
		return e
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return e
	}
	n := e.I
	switch b.Kind() {
	case types.Int8:
		n = int64(int8(n))
	case types.Int16:
		n = int64(int16(n))
	case types.Int32:
		n = int64(int32(n))
	case types.Uint8:
		n = int64(uint8(n))
	case types.Uint16:
		n = int64(uint16(n))
	case types.Uint32:
		n = int64(uint32(n))
	}
	if n == e.I {
		return e
	}
	return constI(n)
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// castPtr is an address taken as another type; the address of the first
// element of an array is that of the array.
func castPtr(v *Expr, t types.Type) *Expr {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return v
	}
	if _, ok := p.Elem().Underlying().(*types.Array); ok && v.Op == "elem" {
		if v.Args[1].isNum() && v.Args[1].I == 0 {
			return v.Args[0]
		}
		return sliceE(v.Args[0], v.Args[1], lenE(v.Args[0])) // counted from there
	}
	return v
}
