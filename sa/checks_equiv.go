package main

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Equations: refs/*.go.txt hold pairs of functions Lhs_X and Rhs_X, written
// against the exported interface of the module. Both are evaluated to value
// graphs over the same arguments and the same memory on entry, and must leave
// the same results and the same memory behind, for all of them.

//go:embed refs/*.go.txt
var refFS embed.FS

type equation struct {
	name     string
	lhs, rhs *ssa.Function
	rng      bool // Rng_RANGE_X: the results of one function lie in a range
}

func loadRefs(dir, pat string) (*World, []equation, error) {
	ents, err := refFS.ReadDir("refs")
	if err != nil {
		return nil, nil, err
	}
	files := map[string][]byte{}
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), pat) {
			b, err := refFS.ReadFile("refs/" + e.Name())
			if err != nil {
				return nil, nil, err
			}
			files[strings.TrimSuffix(e.Name(), ".txt")] = b
		}
	}
	w, err := loadWith(dir, nil, files)
	if err != nil {
		return nil, nil, err
	}
	pkg := w.SSA[modPath+"/"+refDir]
	if withHost {
		pkg = w.SSA[modPath+"/"+hostPkgs[0]]
	}
	if pkg == nil {
		return nil, nil, fmt.Errorf("the reference package was not loaded")
	}
	m := map[string]*equation{}
	w.Models = map[string]*ssa.Function{}
	for n, mem := range pkg.Members {
		if x, ok := strings.CutPrefix(n, "ModelC_"); ok {
			w.Models[modPath+"/"+hostPkgs[0]+"._Cfunc_"+x], _ = mem.(*ssa.Function)
			w.Models[modPath+"/"+hostPkgs[1]+"._Cfunc_"+x], _ = mem.(*ssa.Function)
		}
		if x, ok := strings.CutPrefix(n, "Model_"); ok {
			if p, f, ok := strings.Cut(x, "__"); ok {
				p = strings.ReplaceAll(p, "_", "/")
				key := p + "." + f
				if t, m, ok := strings.Cut(f, "__"); ok {
					key = "(" + p + "." + t + ")." + m
				}
				w.Models[key], _ = mem.(*ssa.Function)
			}
		}
	}
	for n, mem := range pkg.Members {
		f, ok := mem.(*ssa.Function)
		if !ok {
			continue
		}
		if strings.HasPrefix(n, "Rng_") {
			m[n] = &equation{name: n, lhs: f, rng: true}
			continue
		}
		for _, side := range []string{"Lhs_", "Rhs_"} {
			if x, ok := strings.CutPrefix(n, side); ok {
				if m[x] == nil {
					m[x] = &equation{name: x}
				}
				if side == "Lhs_" {
					m[x].lhs = f
				} else {
					m[x].rhs = f
				}
			}
		}
	}
	var out []equation
	for _, e := range m {
		if e.lhs == nil || e.rhs == nil && !e.rng {
			return nil, nil, fmt.Errorf("equation %s has one side", e.name)
		}
		out = append(out, *e)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return w, out, nil
}

// subject is the function of the module the equation is about: the last one
// its left side calls.
func (e equation) subject() *ssa.Function {
	if f := lastCall(e.lhs, e.lhs.Pkg, 0); f != nil {
		return f
	}
	return e.lhs
}

func lastCall(of *ssa.Function, refs *ssa.Package, depth int) (last *ssa.Function) {
	for _, b := range of.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || f.Pkg == nil {
				continue
			}
			if inRefs(f, refs) {
				if depth < 4 {
					if g := lastCall(f, refs, depth+1); g != nil {
						last = g
					}
				}
			} else if inScope(f.Pkg.Pkg.Path()) {
				last = f
			}
		}
	}
	return last
}

// touched lists the module functions the two sides call.
func (e equation) touched() (out []*ssa.Function) {
	for _, f := range []*ssa.Function{e.lhs, e.rhs} {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && inScope(g.Pkg.Pkg.Path()) && !inRefs(g, f.Pkg) {
						out = append(out, g)
					}
				}
			}
		}
	}
	return
}

type eqOpts struct {
	peel   int
	flush  bool
	reals  bool // no number but math.NaN() is a NaN
	tables bool // package tables hold what they are initialised to
	enums  map[*Expr][]int64
	given  facts                 // conditions taken for granted
	deep   bool                  // objects made on the way are compared too, when reachable
	scrap  func(key string) bool // cells that may differ
}

type eqResult struct {
	err   string
	diffs []string
	cells int
	nodes int
}

func (e equation) decide(w *World, o eqOpts) (r eqResult) {
	o.deep = o.deep || strings.HasSuffix(e.name, "_deep")
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(symBudget); ok {
				r.err = "too large to compare: " + b.where
				return
			}
			panic(x)
		}
	}()
	args := argSyms(e.lhs)
	if e.rng {
		return e.decideRange(w, o, args)
	}
	run := func(f *ssa.Function, back bool) (symResult, *symEng) {
		g := newSymEng(w)
		g.peel = o.peel
		g.mapsBack = back
		g.reals = o.reals
		var st *sstate
		if o.tables {
			st = g.tableState()
		}
		res := g.run(f, args, st)
		return res, g
	}
	// once, and where maps are visited again in the other order
	for _, back := range []bool{false, true} {
		a, ga := run(e.lhs, back)
		b, gb := run(e.rhs, back)
		for _, x := range []symResult{a, b} {
			if x.err != "" {
				r.err = x.err
				return
			}
		}
		r = compareRuns(e.name, a, b, o)
		if r.err != "" || len(r.diffs) > 0 || !ga.mapOrder && !gb.mapOrder {
			return
		}
	}
	return
}

var rangeNames = map[string]ival{"unit": iv(0, 1), "bip": iv(-1, 1), "pos": iv(0, inf), "real": ivReal}

// decideRange bounds the results over the intervals of the arguments.
func (e equation) decideRange(w *World, o eqOpts, args []*Expr) (r eqResult) {
	name, _, _ := strings.Cut(strings.TrimPrefix(e.name, "Rng_"), "_")
	want, ok := rangeNames[name]
	if !ok {
		r.err = "unknown range " + name
		return
	}
	g := newSymEng(w)
	g.peel = o.peel
	res := g.run(e.lhs, args, nil)
	if res.err != "" {
		r.err = res.err
		return
	}
	env := newIenv(&isrc{fuel: 100000, cell: func(*Expr, string) (ival, bool) { return ivTop, false }, sym: func(x *Expr) ival {
		for i, a := range argSyms(e.lhs) {
			if a == x && x.K == 'i' {
				if lo, hi, ok := intRange(types.TypeString(e.lhs.Params[i].Type().Underlying(), nil)); ok {
					return iv(lo, hi)
				}
			}
		}
		return defaultOf(x.K)
	}})
	for i, x := range tuple(res.ret) {
		r.cells++
		if x.K != 'f' && x.K != 'd' && x.K != 'i' {
			continue
		}
		if v := env.eval(x); !v.within(want) {
			r.diffs = append(r.diffs, fmt.Sprintf("result %d leaves %v: %v", i+1, want, v))
			if p := os.Getenv("VSA_EQ"); p != "" && strings.Contains(e.name, p) {
				fmt.Println(x.render(12))
			}
		}
	}
	return
}

// compareRuns compares the results and the memory two evaluations leave behind.
func compareRuns(name string, a, b symResult, o eqOpts) (r eqResult) {
	if !a.ok || !b.ok {
		if a.ok == b.ok {
			return
		}
		r.err = "only one side returns"
		return
	}
	fresh := madeRoot
	if o.deep {
		la, lb := labelFresh(&a), labelFresh(&b)
		fresh = func(k *Expr) bool {
			return madeRoot(k) && !labelled(k)
		}
		for _, d := range [][2]map[string]bool{{la, lb}, {lb, la}} {
			for l := range d[0] {
				if !d[1][l] && !(o.scrap != nil && o.scrap(l)) {
					r.diffs = append(r.diffs, "whether "+strings.TrimPrefix(l, "#.")+" is made")
				}
			}
		}
	}
	c := newCanon()
	c.flushOK = o.flush
	pr := newPruner()
	pr.enums = o.enums
	apart := 0
	prI := newPruner()
	prI.enums = o.enums
	prI.ranges = true
	var same func(x, y *Expr) bool
	same = func(x, y *Expr) (r bool) {
		if x == y || c.num(x).eq(c.num(y)) {
			return true
		}
		if apart >= 4 {
			return false // told apart already: no effort is spent on the rest
		}
		defer func() {
			if !r {
				apart++
			}
		}()
		// again, each arm of a conditional under its condition
		x, y = pr.prune(x, o.given), pr.prune(y, o.given)
		if x == y || c.num(x).eq(c.num(y)) {
			return true
		}
		if es := elements(x, y); es != nil {
			for _, p := range es {
				if !same(p[0], p[1]) {
					eqTrace(name, "element", prI.prune(p[0], o.given), prI.prune(p[1], o.given), c)
					return false
				}
			}
			return true
		}
		x, y = prI.prune(x, o.given), prI.prune(y, o.given)
		return x == y || c.num(x).eq(c.num(y)) || sameByCases(c, x, y) || sameByFacts(c, prI, x, y, o.given)
	}
	if a.ret != nil && b.ret != nil {
		r.cells++
		x, y := tuple(a.ret), tuple(b.ret)
		for i := range x {
			if i < len(y) && !same(x[i], y[i]) {
				what := "result"
				if len(x) > 1 {
					what = fmt.Sprintf("result %d", i+1)
				}
				r.diffs = append(r.diffs, what)
				eqTrace(name, what, x[i], y[i], c)
			}
		}
	}
	// memory
	keys := map[[2]uint64][2]*Expr{}
	note := func(s *sstate, side int) {
		for k := range s.heap {
			if k.bound || fresh(k) || keyName(k) == "arrOf(nil)" || k.Op == "ver" && strings.HasPrefix(k.Args[0].Op, "obj") {
				continue
			}
			n := c.num(k)
			p := keys[[2]uint64{n.a, n.b}]
			p[side] = k
			keys[[2]uint64{n.a, n.b}] = p
		}
	}
	note(a.st, 0)
	note(b.st, 1)
	var names []string
	for _, p := range keys {
		k := p[0]
		if k == nil {
			k = p[1]
		}
		k2 := p[1]
		if k2 == nil {
			k2 = k
		}
		kind := byte('o')
		for i, s := range []*sstate{a.st, b.st} {
			if p[i] != nil {
				kind = s.heap[p[i]].K
			}
		}
		va, vb := a.st.read(k, kind), b.st.read(k2, kind)
		r.cells++
		if o.scrap != nil && o.scrap(keyName(k)) {
			continue
		}
		if same(va, vb) {
			continue
		}
		names = append(names, keyName(k))
		eqTrace(name, keyName(k), va, vb, c)
	}
	// facts about collections
	qs := func(s *sstate) map[[2]uint64]string {
		m := map[[2]uint64]string{}
		for _, q := range s.quants {
			if fresh(q.key) {
				continue
			}
			in := facts{}
			for f, t := range o.given {
				in[f] = t
			}
			if !q.all || q.lo != nil {
				in.add(binE("<=", 'b', q.lo, q.hole), true)
				in.add(binE("<", 'b', q.hole, q.hi), true)
			}
			in.add(q.cond, true)
			q.val = pr.prune(q.val, in)
			h := hashV("quant", c.num(q.key), bare(c.num(q.val)), bare(c.num(q.lo)), bare(c.num(q.hi)), bare(c.num(q.cond)), cBool(q.all))
			m[[2]uint64{h.a, h.b}] = keyName(q.key)
			if p := os.Getenv("VSA_EQ"); p == "quants" || p != "" && strings.Contains(name, p) {
				fmt.Println(" quant", name, q.key, "val", q.val.render(8), "lo", q.lo, "hi", q.hi, "all", q.all, "cond", q.cond)
			}
		}
		return m
	}
	qa, qb := qs(a.st), qs(b.st)
	for h, n := range qa {
		r.cells++
		if _, ok := qb[h]; !ok && !(o.scrap != nil && o.scrap(n)) {
			names = append(names, n)
		}
	}
	for h, n := range qb {
		if _, ok := qa[h]; !ok && !(o.scrap != nil && o.scrap(n)) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for i, n := range names {
		if i == 0 || n != names[i-1] {
			r.diffs = append(r.diffs, n)
		}
	}
	r.nodes = c.n
	return
}

// labelFresh renames the objects reachable from the result and from memory
// that existed on entry by the order in which they are reached.
func labelFresh(r *symResult) map[string]bool {
	labels := map[string]string{}
	made := map[string]bool{}
	var queue []string
	find := func(from string, e *Expr) {
		n := 0
		walkExpr(e, map[*Expr]bool{}, func(x *Expr) bool {
			if isMade(x) {
				if labels[site(x)] == "" {
					l := from
					if n > 0 {
						l += fmt.Sprintf("~%d", n)
					}
					n++
					labels[site(x)] = l
					made[l] = true
					queue = append(queue, site(x))
				}
			}
			return true
		})
	}
	rootSite := func(k *Expr) string {
		for len(k.Args) > 0 && !isMade(k) {
			k = k.Args[0]
		}
		return site(k)
	}
	type ent struct{ key, val *Expr }
	byRoot := map[string][]ent{}
	add := func(k, v *Expr) { byRoot[rootSite(k)] = append(byRoot[rootSite(k)], ent{k, v}) }
	for k, v := range r.st.heap {
		add(k, v)
	}
	for _, q := range r.st.quants {
		add(q.key, q.val)
	}
	visit := func(from string, es []ent) {
		type named struct {
			n string
			v *Expr
		}
		var ns []named
		for _, e := range es {
			n := pathName(e.key)
			ns = append(ns, named{n, e.val})
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i].n < ns[j].n || ns[i].n == ns[j].n && ns[i].v.ID < ns[j].v.ID })
		for _, n := range ns {
			find(from+n.n, n.v)
		}
	}
	if r.ret != nil {
		find("#", r.ret)
	}
	var old []string
	for s := range byRoot {
		if !strings.HasPrefix(s, "obj ") && !strings.HasPrefix(s, "make") && !strings.HasPrefix(s, "append") {
			old = append(old, s)
		}
	}
	sort.Strings(old)
	for _, s := range old {
		visit("#"+s, byRoot[s])
	}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		visit(labels[s], byRoot[s])
	}
	memo := map[*Expr]*Expr{}
	ren := func(e *Expr) *Expr { return relabel(e, labels, memo) }
	st := &sstate{heap: map[*Expr]*Expr{}}
	for k, v := range r.st.heap {
		st.heap[ren(k)] = ren(v)
	}
	for _, q := range r.st.quants {
		q.key, q.val, q.lo, q.hi, q.cond = ren(q.key), ren(q.val), ren(q.lo), ren(q.hi), ren(q.cond)
		st.quants = append(st.quants, q)
	}
	r.st = st
	if r.ret != nil {
		r.ret = ren(r.ret)
	}
	return made
}

// isMade: something the run allocates. What append returns counts as such:
// whether it shares the old array is not told apart.
func isMade(e *Expr) bool {
	switch e.Op {
	case "obj", "make", "makemap", "append":
		return true
	}
	return false
}

func site(e *Expr) string {
	if e.Op == "append" {
		return fmt.Sprintf("append %d", e.ID)
	}
	return e.Op + " " + e.Str
}

func madeRoot(a *Expr) bool {
	for {
		switch a.Op {
		case "fld", "elem", "arrOf", "mapOf":
			a = a.Args[0]
		case "obj", "make", "makemap", "append":
			return true
		default:
			return false
		}
	}
}

func labelled(k *Expr) bool {
	for len(k.Args) > 0 && !isMade(k) {
		k = k.Args[0]
	}
	return strings.HasPrefix(k.Str, "#")
}

// pathName is the way from a root to a cell.
func pathName(k *Expr) string {
	switch k.Op {
	case "obj", "make", "makemap", "append":
		return ""
	case "fld", "in":
		return pathName(k.Args[0]) + "." + k.Str
	}
	if len(k.Args) == 0 {
		return k.String()
	}
	return pathName(k.Args[0]) + "/" + k.Op + k.Str
}

func relabel(e *Expr, labels map[string]string, memo map[*Expr]*Expr) *Expr {
	if r, ok := memo[e]; ok {
		return r
	}
	args := make([]*Expr, len(e.Args))
	same := true
	for i, a := range e.Args {
		args[i] = relabel(a, labels, memo)
		same = same && args[i] == a
	}
	s := e.Str
	if isMade(e) {
		if l := labels[site(e)]; l != "" {
			s, same = l, false
			if e.Op == "append" {
				// a slice like any other made here
				var its []*Expr
				for _, a := range args[3:] {
					if !a.isConst() {
						its = append(its, a)
					}
				}
				r := mk("obj", l, 'o', its...)
				memo[e] = r
				return r
			}
		}
	}
	r := e
	if !same {
		r = mk(e.Op, s, e.K, args...)
	}
	memo[e] = r
	return r
}

func tuple(e *Expr) []*Expr {
	if e.Op == "struct" && e.Str == "tuple" {
		return e.Args
	}
	return []*Expr{e}
}

func eqTrace(name, what string, a, b *Expr, c *canon) {
	if p := os.Getenv("VSA_EQ"); p != "" && strings.Contains(name, p) {
		fmt.Printf("--- %s %s\n", name, what)
		if n, _ := strconv.Atoi(os.Getenv("VSA_DEPTH")); n > 0 {
			fmt.Println(a.render(n))
			fmt.Println(b.render(n))
		}
		explainDiff(c.top, c.top, a, b, 0)
	}
}

// explainDiff descends to where two graphs stop agreeing.
func explainDiff(va, vb *cenv, a, b *Expr, d int) {
	ind := strings.Repeat("  ", d)
	if d > 14 {
		return
	}
	fmt.Printf("%s%s %s | %s\n", ind, a.Op, short(a), short(b))
	if a.Op == b.Op && a.Str == b.Str && len(a.Args) == len(b.Args) && a.Op != "loopexit" {
		for i := range a.Args {
			if !va.eval(a.Args[i]).eq(vb.eval(b.Args[i])) {
				explainDiff(va, vb, a.Args[i], b.Args[i], d+1)
			}
		}
		return
	}
	if a.Op == "loopexit" && b.Op == "loopexit" {
		fmt.Printf("%s loops:\n", ind)
		for _, x := range []*Expr{a, b} {
			n, inits, bvs, steps, cont, _ := loopParts(x.Args[0])
			fmt.Printf("%s  exit %s cont %s\n", ind, x.Str, cont.render(5))
			for i := 0; i < n; i++ {
				s := steps[i].render(7)
				if len(s) > 600 {
					s = s[:600]
				}
				fmt.Printf("%s    %s: init %s step %s\n", ind, bvs[i], inits[i].render(4), s)
			}
		}
	}
}

func short(e *Expr) string {
	s := e.render(5)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// eqDebug prints how the equations of one family come out.
func eqDebug(repo, pat string) {
	w, eqs, err := loadRefs(repo, pat)
	if err != nil {
		fmt.Println(err)
		return
	}
	if os.Getenv("VSA_COV") != "" {
		covered = map[string]bool{}
		defer func() {
			for _, f := range w.Funcs {
				if f.Object() != nil && f.Parent() == nil {
					fmt.Println("cov", covered[f.String()], f.Object().Exported(), opName(f))
				}
			}
		}()
	}
	for _, e := range eqs {
		if f := os.Getenv("VSA_EQ"); f != "" && f != "quants" && !strings.Contains(e.name, f) {
			continue
		}
		r := e.decide(w, debugOpts(pat))
		st := "ok "
		if r.err != "" {
			st = "ERR"
		} else if len(r.diffs) > 0 {
			st = "DIFF"
		}
		fmt.Println(st, e.name, e.subject(), r.cells, r.nodes, r.err, r.diffs)
	}
}

func debugOpts(pat string) eqOpts {
	if pat == hostFam.pat {
		return hostFam.opts
	}
	for _, f := range families {
		if f.pat == pat {
			return f.opts
		}
	}
	return eqOpts{peel: 4}
}

// inRefs tells the functions of the equations from those of the tree; over the
// host layer both are in one package.
func inRefs(f *ssa.Function, refs *ssa.Package) bool {
	if f.Pkg != refs {
		return false
	}
	return !withHost || strings.HasPrefix(filepath.Base(f.Prog.Fset.Position(f.Pos()).Filename), "zzvsa_")
}
