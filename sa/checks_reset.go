package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "abstract evaluation of Reset over the constructor's final state, and dependence analysis of what Reset stores", checkC17)
}

// methodsOf lists the exported methods of a named type, by receiver.
func methodsOf(w *World) map[string][]*ssa.Function {
	m := map[string][]*ssa.Function{}
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Signature.Recv() == nil || f.Synthetic != "" {
			continue
		}
		T := f.Signature.Recv().Type()
		if p, ok := T.(*types.Pointer); ok {
			T = p.Elem()
		}
		if n, ok := T.(*types.Named); ok {
			m[typeKey(n)] = append(m[typeKey(n)], f)
		}
	}
	return m
}

// ctorsOf lists the exported functions that return a new *T.
func ctorsOf(w *World, T string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(f.Name(), "New") {
			continue
		}
		r := f.Signature.Results()
		if r.Len() < 1 {
			continue
		}
		p, ok := r.At(0).Type().(*types.Pointer)
		if ok && typeKey(p.Elem()) == T {
			out = append(out, f)
		}
	}
	return out
}

var configVerb = []string{"Set", "Enable", "Disable", "Add", "With", "Load", "Clear", "Reset", "Build", "Remove", "Insert", "Register"}

func isConfigOp(name string) bool {
	for _, v := range configVerb {
		if strings.HasPrefix(name, v) {
			return true
		}
	}
	return false
}

// classFlow is the flow between the cells of one structure over its methods.
type classFlow struct {
	T      string
	ops    []*opRun // exported methods other than Reset
	reset  *ssa.Function
	out    map[string]map[string]bool // cell path -> cells its new values depend on
	live   map[string]bool            // cells something observable can depend on
	writes map[string]map[string]bool // cell path -> operations (other than configuration) that write it
	calls  map[string]bool            // paths of objects of unknown type that processing calls
}

func cellPath(k, recv *Expr) (string, bool) {
	if k.Op == "ver" || k.Op == "mapOf" {
		return "", false
	}
	return pathOf(k, recv)
}

func newClassFlow(T string, methods []*ssa.Function, byF map[*ssa.Function]*opRun) *classFlow {
	return flowOver(T, methods, byF)
}

// flowOver is the flow over the given operations only.
func flowOver(T string, methods []*ssa.Function, byF map[*ssa.Function]*opRun) *classFlow {
	cf := &classFlow{T: T, out: map[string]map[string]bool{}, live: map[string]bool{}, writes: map[string]map[string]bool{}, calls: map[string]bool{}}
	roots := map[string]bool{}
	d := newDepEng()
	for _, f := range methods {
		if f.Name() == "Reset" {
			cf.reset = f
			continue
		}
		r := byF[f]
		if r == nil || r.res.st == nil {
			continue
		}
		cf.ops = append(cf.ops, r)
		recv := argSyms(f)[0]
		flow := func(to map[string]bool, es ...*Expr) {
			for _, e := range es {
				for l := range d.deps(e) {
					if p, ok := leafPath(l, recv); ok {
						to[p] = true
					}
				}
			}
		}
		dst := func(k *Expr) map[string]bool {
			if k.Op == "mapOf" {
				if p, ok := pathOf(k.Args[0], recv); ok {
					p += "{}"
					if cf.out[p] == nil {
						cf.out[p] = map[string]bool{}
					}
					return cf.out[p]
				}
				return roots
			}
			p, ok := cellPath(k, recv)
			if !ok {
				return roots // arguments, globals, objects that are returned, calls
			}
			if cf.out[p] == nil {
				cf.out[p] = map[string]bool{}
			}
			return cf.out[p]
		}
		st := r.res.st
		for k, v := range st.heap {
			to := dst(k)
			flow(to, v)
			if k.Op != "ver" {
				for l := range d.addr(k) {
					if p, ok := leafPath(l, recv); ok {
						to[p] = true
					}
				}
			} else if p, ok := pathOf(k.Args[0], recv); ok && !isConfigOp(f.Name()) && strings.HasPrefix(k.Str, "inv:") {
				cf.calls[p] = true
			}
		}
		for _, q := range st.quants {
			to := dst(q.key)
			flow(to, q.val, q.cond, q.lo, q.hi)
			if q.key.Op == "ver" {
				if p, ok := pathOf(q.key.Args[0], recv); ok && !isConfigOp(f.Name()) && strings.HasPrefix(q.key.Str, "inv:") {
					cf.calls[p] = true
				}
			}
		}
		flow(roots, r.res.ret)
		if isConfigOp(f.Name()) {
			continue
		}
		for a := range r.g.wrote {
			if p, ok := pathOf(a, recv); ok {
				if cf.writes[p] == nil {
					cf.writes[p] = map[string]bool{}
				}
				cf.writes[p][f.Name()] = true
			}
		}
	}
	var todo []string
	mark := func(p string) {
		if !cf.live[p] {
			cf.live[p] = true
			todo = append(todo, p)
		}
	}
	for p := range roots {
		mark(p)
	}
	for len(todo) > 0 {
		p := todo[0]
		todo = todo[1:]
		for q := range cf.out[p] {
			mark(q)
		}
	}
	return cf
}

func (cf *classFlow) state() map[string]bool {
	s := map[string]bool{}
	for p := range cf.writes {
		if cf.live[p] {
			s[p] = true
		}
	}
	return s
}

// nilGuard: the condition says that storage does not exist.
func nilGuard(c *Expr) bool {
	return c.Op == "==" && (c.Args[0] == eNil && c.Args[1].Op == "in" || c.Args[1] == eNil && c.Args[0].Op == "in")
}

// emptyGuard: the condition says that an array has no elements.
func emptyGuard(g *symEng, c, root *Expr) bool {
	n := lenE(root)
	switch {
	case c.Op == "and":
		return emptyGuard(g, c.Args[0], root) || emptyGuard(g, c.Args[1], root)
	case c.Op == "==" && c.Args[0].isNum() && c.Args[0].I == 0:
		return sameLen(c.Args[1], n)
	case c.Op == "==" && c.Args[1].isNum() && c.Args[1].I == 0:
		return sameLen(c.Args[0], n)
	case c.Op == "<=" && c.Args[1].isNum() && c.Args[1].I == 0:
		return sameLen(c.Args[0], n)
	}
	return false
}

// overwritten: no element of the array expression is one of the old contents
// of root, and the values do not depend on cells for which bad is true.
func overwritten(g *symEng, a, root *Expr, bad func(e *Expr) string) string {
	switch a.Op {
	case "zero":
		return ""
	case "fill":
		if a.Str != "all" {
			if s := overwritten(g, a.Args[0], root, bad); s != "" {
				return "only a part is cleared"
			}
		}
		return bad(a.Args[3])
	case "ite":
		if nilGuard(a.Args[0]) || emptyGuard(g, a.Args[0], root) {
			return overwritten(g, a.Args[2], root, bad)
		}
		if c := notE(a.Args[0]); nilGuard(c) || emptyGuard(g, c, root) {
			return overwritten(g, a.Args[1], root, bad)
		}
		if s := overwritten(g, a.Args[1], root, bad); s != "" {
			return s
		}
		return overwritten(g, a.Args[2], root, bad)
	case "store":
		n, ok := g.arrLen[root]
		got := map[int64]bool{}
		for a.Op == "store" && a.Args[1].isNum() {
			if s := bad(a.Args[2]); s != "" {
				return s
			}
			got[a.Args[1].I] = true
			a = a.Args[0]
		}
		if ok && int64(len(got)) == n {
			return ""
		}
		if a.Op == "zero" {
			return ""
		}
		return "only single elements are cleared"
	case "A0":
		return "the old contents are kept"
	case "loopexit":
		if b := sweep(g, a, root); b != nil {
			return bad(b)
		}
	}
	return bad(a)
}

// sweep: the loop stores every element of the array once, in order, without
// reading it; the result stands for what it stores.
func sweep(g *symEng, a, root *Expr) *Expr {
	l := a.Args[0]
	n, inits, bvs, steps, cont, exits := loopParts(l)
	var i int
	if _, err := sscan(a.Str, &i); err != nil || i >= n || len(exits) != 1 {
		return nil
	}
	st := steps[i]
	if st.Op != "store" || st.Args[0] != bvs[i] || usesExpr(st.Args[2], bvs[i]) {
		return nil
	}
	for j, s := range steps {
		if j != i && usesExpr(s, bvs[i]) {
			return nil
		}
	}
	for j := range bvs {
		sh := binE("-", 'i', st.Args[1], bvs[j])
		if !sh.isNum() || binE("-", 'i', steps[j], bvs[j]) != constI(1) || binE("+", 'i', inits[j], sh) != constI(0) {
			continue
		}
		for _, c := range conjuncts(cont) {
			if c.Op != "<=" {
				continue
			}
			d := binE("-", 'i', c.Args[0], bvs[j])
			if !d.isNum() {
				// k <= m, with φ on the right subtracted
				m := binE("+", 'i', c.Args[1], bvs[j])
				if c.Args[0].isNum() && g.lenOfRoot(nil, root, binE("+", 'i', m, constI(1+sh.I-c.Args[0].I))) {
					in := append([]*Expr{}, l.Args...)
					in[i] = eZeroA
					return mk("loopexit", a.Str, a.K, mk("loop", l.Str, l.K, in...))
				}
				continue
			}
			if g.lenOfRoot(nil, root, binE("+", 'i', c.Args[1], constI(1+sh.I-d.I))) {
				in := append([]*Expr{}, l.Args...)
				in[i] = eZeroA
				return mk("loopexit", a.Str, a.K, mk("loop", l.Str, l.K, in...))
			}
		}
	}
	return nil
}

func checkC17(c *Ctx) {
	w := c.W
	c.Rule("fresh", "Reset of a newly made object leaves every state cell as the constructor made it", 95)
	c.Rule("covers", "Reset overwrites every cell that processing writes and that later results can depend on, with a value that does not depend on such cells", 165)
	c.Rule("delegates", "Reset resets every processor, voice or stage of unknown type that processing calls", 4)
	runs := classRuns(w)
	byF := map[*ssa.Function]*opRun{}
	for _, r := range runs {
		byF[r.f] = r
	}
	ms := methodsOf(w)
	var names []string
	for T := range ms {
		names = append(names, T)
	}
	sort.Strings(names)
	for _, T := range names {
		cf := newClassFlow(T, ms[T], byF)
		if cf.reset == nil || byF[cf.reset] == nil {
			continue
		}
		name := opName(cf.reset)
		c.Analysed(name)
		rr := byF[cf.reset]
		if rr.res.err != "" || rr.res.st == nil {
			c.Bad("covers", name, cf.reset.Pos(), "undecided: %s", rr.res.err)
			continue
		}
		state := cf.state()
		if os.Getenv("VSA_DBG17") != "" {
			println(T, strings.Join(sortedSet(state), " "))
		}
		c.resetCovers(cf, rr, state)
		for _, ct := range ctorsOf(w, T) {
			c.resetFresh(cf, ct, state, byF)
		}
	}
}

func (c *Ctx) resetCovers(cf *classFlow, rr *opRun, state map[string]bool) {
	c.covers("covers", cf, rr, state, resetKeeps)
}

// covers: the operation (Reset or SetSeed) overwrites every state path.
func (c *Ctx) covers(rule string, cf *classFlow, rr *opRun, state map[string]bool, keeps map[string]string) {
	recv := argSyms(cf.reset)[0]
	d := newDepEng()
	name := opName(cf.reset)
	var bad func(e *Expr) string
	bad = func(e *Expr) string {
		if e.Op == "ite" && nilGuard(e.Args[0]) {
			return bad(e.Args[2])
		}
		if e.Op == "slice" && e.Args[1] == e.Args[2] {
			return "" // nothing of the storage can be seen
		}
		for l := range d.deps(e) {
			if p, ok := leafPath(l, recv); ok && state[p] {
				return "its new value depends on the state cell " + p
			}
			if isHole(l) {
				continue
			}
		}
		return ""
	}
	got := map[string]string{}
	tried := map[string]bool{}
	put := func(p, s string) {
		if o, ok := got[p]; ok && o == "" {
			return
		}
		got[p] = s
		tried[p] = true
	}
	st := rr.res.st
	for _, k := range sortedKeys(st.heap) {
		if k.Op == "mapOf" {
			if p, ok := pathOf(k, recv); ok {
				s := "entries are kept"
				if v := st.heap[k]; v.Op == "emptymap" || v.Op == "makemap" {
					s = ""
				}
				put(p, s)
				if s == "" {
					put(strings.TrimSuffix(p, "{}"), s) // which map it is does not matter
				}
			}
			continue
		}
		p, ok := cellPath(k, recv)
		if !ok {
			continue
		}
		if k.Op == "arrOf" {
			put(p, overwritten(rr.g, st.heap[k], k.Args[0], bad))
			continue
		}
		if hasIdx(k) {
			put(p, "only one element is cleared")
			continue
		}
		put(p, bad(st.heap[k]))
	}
	for _, q := range st.quants {
		p, ok := cellPath(q.key, recv)
		if !ok {
			continue
		}
		s := ""
		if q.key.Op == "arrOf" {
			s = overwritten(rr.g, q.val, q.key.Args[0], bad)
		} else {
			s = bad(q.val)
		}
		if s == "" && (!q.all || q.cond != eTrue && !nilGuard(notE(q.cond))) {
			s = "not all elements are cleared"
		}
		if s == "" && hasSomeIter(q.val) {
			s = "undecided: its value is not known in closed form"
		}
		put(p, s)
	}
	for _, p := range sortedSet(state) {
		con := cf.T + "." + p
		if why := keeps[con]; why != "" {
			continue
		}
		c.Ob(rule, con)
		// storing a new slice replaces all elements
		s, ok := got[p]
		for q := p; !ok || s != ""; {
			i := strings.LastIndexAny(q, ".[{")
			if i <= 0 {
				break
			}
			q = q[:i]
			if s2, ok2 := got[q]; ok2 && s2 == "" && freshValue(st, recv, q) {
				s, ok = "", true
			}
		}
		if !ok {
			s = "Reset does not store it"
		}
		if s != "" {
			var by []string
			for o := range cf.writes[p] {
				by = append(by, o)
			}
			sort.Strings(by)
			if len(by) > 3 {
				by = by[:3]
			}
			c.Bad(rule, con, cf.reset.Pos(), "%s: %s, written by %s, is not restored: %s", name, p, strings.Join(by, ", "), s)
		}
	}
	if rule != "covers" {
		return
	}
	// objects of unknown type
	for _, p := range sortedSet(cf.calls) {
		con := cf.T + "." + p
		c.Ob("delegates", con)
		ok := false
		for _, k := range sortedKeys(st.heap) {
			if k.Op == "ver" && (strings.HasPrefix(k.Str, "inv:Reset") || strings.HasPrefix(k.Str, "inv:Stop")) {
				if q, o := pathOf(k.Args[0], recv); o && q == p && !hasIdx(k) {
					ok = true
				}
			}
		}
		for _, q := range st.quants {
			if q.key.Op == "ver" && (strings.HasPrefix(q.key.Str, "inv:Reset") || strings.HasPrefix(q.key.Str, "inv:Stop")) && q.all && q.cond == eTrue {
				if x, o := pathOf(q.key.Args[0], recv); o && x == p {
					ok = true
				}
			}
		}
		if !ok {
			c.Bad("delegates", con, cf.reset.Pos(), "%s does not reset %s, which processing calls", name, p)
		}
	}
}

func hasSomeIter(e *Expr) bool {
	f := false
	walkExpr(e, map[*Expr]bool{}, func(x *Expr) bool {
		if x.Op == "someiter" {
			f = true
		}
		return !f
	})
	return f
}

// freshValue: the cell holds storage made by this operation.
func freshValue(st *sstate, recv *Expr, p string) bool {
	for k, v := range st.heap {
		if q, ok := cellPath(k, recv); ok && q == p {
			switch v.Op {
			case "make", "obj", "makemap":
				return true
			case "slice":
				return v.Args[1] == v.Args[2]
			}
			return v == eNil
		}
	}
	return false
}

// resetKeeps: state that Reset keeps on purpose.
var resetKeeps = map[string]string{
	"dsp/analysis.LUFSMeter.filtered":                                  "scratch: Process fills what it reads",
	"dsp/analysis.LUFSMeter.filtered[]":                                "scratch: Process fills what it reads",
	"dsp/analysis.LUFSMeter.channelPower[]":                            "scratch: every channel is computed before the copy",
	"dsp/analysis.SpectrumAnalyzer.fft.real[]":                         "scratch: the transform loads it first",
	"dsp/analysis.SpectrumAnalyzer.fft.imag[]":                         "scratch: the transform clears it first",
	"dsp/analysis.SpectrumAnalyzer.fft.magnitude[]":                    "a result of the last transform, read only right after one",
	"dsp/utility.NoiseGenerator/dsp/utility.NoiseGenerator.pinkRows[]": "noise, as above",
	"framework/dsp.NoiseAdapter/dsp/utility.NoiseGenerator.pinkRows[]": "noise, as above",
	"framework/dsp.ParallelChain.scratch":                              "scratch: Process fills what it reads",
	"framework/dsp.ParallelChain.scratch[]":                            "scratch: Process fills what it reads",
	"framework/param.Smoother.logCurrent":                              "read only while smoothing, which starts by setting it",
}

func (c *Ctx) resetFresh(cf *classFlow, ct *ssa.Function, state map[string]bool, byF map[*ssa.Function]*opRun) {
	w := c.W
	g := newSymEng(w)
	cr := g.run(ct, nil, nil)
	con := cf.T + " by " + ct.Name()
	if cr.err != "" || cr.ret == nil {
		c.Bad("fresh", con, ct.Pos(), "undecided: %s", cr.err)
		return
	}
	obj := cr.ret
	if obj.Op == "struct" && len(obj.Args) > 0 {
		obj = obj.Args[0]
	}
	h0 := cr.st.clone()
	args := argSyms(cf.reset)
	args[0] = obj
	rr := g.run(cf.reset, args, cr.st.clone())
	if rr.err != "" {
		c.Bad("fresh", con, cf.reset.Pos(), "undecided: %s", rr.err)
		return
	}
	// cells are matched by type and field
	types := map[string]bool{}
	for p := range state {
		if k := cf.typeKeyOf(p, byF); k != "" {
			types[k] = true
		}
	}
	h1 := rr.st
	if os.Getenv("VSA_DBG17") == cf.T {
		for i, h := range []*sstate{h0, h1} {
			println("--", i)
			for _, k := range sortedKeys(h.heap) {
				println("  ", k.render(12), ":=", h.heap[k].render(8))
			}
			for _, q := range h.quants {
				println("  forall", q.hole.String(), q.lo.String(), q.hi.String(), q.all, q.cond.String(), q.key.render(12), ":=", q.val.render(8))
			}
		}
	}
	seen := map[string]bool{}
	cmpTo := func(k, b *Expr) {
		key := ownerKey(k)
		if k.Op == "arrOf" {
			key += "[]"
		}
		if !types[key] || !rootedFresh(k) {
			return
		}
		kk := cf.T + "/" + key
		if !seen[kk] {
			seen[kk] = true
			c.Ob("fresh", kk+" "+ct.Name())
		}
		kind := h1K(h1, k)
		if b == nil {
			b = h1.read(k, kind)
		} else {
			kind = b.K
		}
		a := h0.read(k, kind)
		if a == b || resetKeeps[kk] != "" || sameFresh(a, b) || b.Op == "sym" {
			return
		}
		c.Bad("fresh", kk+" "+ct.Name(), cf.reset.Pos(), "%s leaves %s = %s where %s made it %s", opName(cf.reset), key, b, ct.Name(), a)
	}
	cmp := func(k *Expr) { cmpTo(k, nil) }
	for _, k := range sortedKeys(h1.heap) {
		cmp(k)
	}
	for _, q := range h1.quants {
		if q.lo.isNum() && q.hi.isNum() && q.hi.I-q.lo.I <= 32 && q.key.hasFree(q.hole) {
			// a family over a known range is compared member by member
			for i := q.lo.I; i < q.hi.I; i++ {
				m := map[*Expr]*Expr{q.hole: constI(i)}
				k := subst(q.key, m, map[*Expr]*Expr{})
				cmpTo(k, subst(q.val, m, map[*Expr]*Expr{}))
			}
			continue
		}
		cmp(q.key)
	}
}

func rootedFresh(k *Expr) bool {
	if k.hasSym() {
		return false
	}
	for a := k; ; a = a.Args[0] {
		switch a.Op {
		case "fld", "elem", "arrOf", "sel":
			continue
		}
		return a != eNil
	}
}

func sameFresh(a, b *Expr) bool {
	if a.Op == "makemap" && b.Op == "makemap" {
		return true
	}
	// one and the same value on every path
	x, y := map[*Expr]bool{}, map[*Expr]bool{}
	iteLeaves(a, x, map[*Expr]bool{})
	iteLeaves(b, y, map[*Expr]bool{})
	if len(x) == 0 {
		return true // the constructor never reaches the cell
	}
	if len(x) != 1 || len(y) != 1 {
		return false
	}
	for e := range x {
		return y[e]
	}
	return false
}

// iteLeaves collects the values of a conditional, less the paths on which
// the cell does not exist.
func iteLeaves(e *Expr, out, seen map[*Expr]bool) {
	if seen[e] {
		return
	}
	seen[e] = true
	if e.Op == "ite" {
		iteLeaves(e.Args[1], out, seen)
		iteLeaves(e.Args[2], out, seen)
		return
	}
	if e.Op == "in" && freshRoot(e.Args[0]) {
		e = zeroOf(e.K)
	}
	if e.Op == "in" && !rootedFresh(e.Args[0]) && !e.Args[0].hasSym() {
		return
	}
	out[e] = true
}

// typeKeyOf names the cell of a path by the structure that holds it.
func (cf *classFlow) typeKeyOf(p string, byF map[*ssa.Function]*opRun) string {
	for _, r := range cf.ops {
		recv := argSyms(r.f)[0]
		for a := range r.g.wrote {
			if q, ok := pathOf(a, recv); ok && q == p {
				return ownerKey(a)
			}
		}
	}
	return ""
}

func h1K(s *sstate, k *Expr) byte {
	if v, ok := s.heap[k]; ok {
		return v.K
	}
	if k.Op == "arrOf" {
		return 'o'
	}
	for _, q := range s.quants {
		if q.key == k {
			return q.val.K
		}
	}
	return 'o'
}

func sortedSet(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
