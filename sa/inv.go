package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Class invariants: for every field of every structure of the module, an
// interval that holds whenever no operation is running. It is the least one
// that every constructor establishes and every exported operation preserves,
// computed over the symbolic summaries of all of them.

type opRun struct {
	f     *ssa.Function
	g     *symEng
	res   symResult
	loops []*loopSum
	alloc []allocRec

	reads map[string]bool // cells its last contribution looked at
	gives map[string]ival // and what it contributed
	tried map[string]bool
}

type classInv struct {
	w      *World
	runs   []*opRun
	val    map[string]ival
	next   map[string]ival
	alias  map[string]map[string]bool
	alloc  map[string]bool // types the module itself makes
	policy argPolicy
	round  int
	open   func(key string, T types.Type) bool // cells code outside may write
	failed []string
	cur    *opRun
	chg    map[string]bool
}

// argPolicy gives the assumed range of an argument.
type argPolicy func(f *ssa.Function, i int, name string, T types.Type, elem bool) ival

func defaultPolicy(f *ssa.Function, i int, name string, T types.Type, elem bool) ival {
	k := kindOf(T)
	if elem {
		if s, ok := T.Underlying().(*types.Slice); ok {
			k = kindOf(s.Elem())
			for k == 'o' {
				s2, ok := s.Elem().Underlying().(*types.Slice)
				if !ok {
					break
				}
				s = s2
				k = kindOf(s.Elem())
			}
		}
	}
	n := strings.ToLower(name)
	switch k {
	case 'b':
		return iv(0, 1)
	case 'i':
		if lo, hi, ok := intRange(types.TypeString(T.Underlying(), nil)); ok {
			return iv(lo, hi)
		}
		return iv(-1<<31, 1<<31)
	case 'f', 'd':
		if strings.Contains(n, "samplerate") {
			return iv(1000, 1e6)
		}
		return iv(-1e9, 1e9)
	}
	return ivTop
}

// runAll evaluates every exported operation once.
func runAll(w *World) []*opRun {
	var out []*opRun
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Pkg == nil {
			continue
		}
		p := relPkg(f.Pkg.Pkg)
		if sharedOK[p] != "" {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		out = append(out, runOp(w, f))
	}
	return out
}

// classRuns evaluates every exported operation knowing which lengths agree.
func classRuns(w *World) []*opRun {
	findLenClasses(w, runAll(w))
	return runAll(w)
}

func runOp(w *World, f *ssa.Function) *opRun {
	g := newSymEng(w)
	r := &opRun{f: f, g: g}
	g.onLoop = func(ls *loopSum) { r.loops = append(r.loops, ls) }
	r.res = g.run(f, nil, nil)
	r.alloc = g.allocs
	if r.res.ret != nil {
		res := f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			if _, ok := res.At(i).Type().Underlying().(*types.Slice); !ok {
				continue
			}
			e := r.res.ret
			if res.Len() > 1 {
				if e.Op != "struct" || i >= len(e.Args) {
					continue
				}
				e = e.Args[i]
			}
			g.leak(e, res.At(i).Type())
		}
	}
	return r
}

func (c *classInv) srcFor(f *ssa.Function) *isrc {
	return &isrc{fuel: 60000,
		cell: func(e *Expr, key string) (ival, bool) { return c.cell(key) },
		sym:  func(e *Expr) ival { return symOf(c.policy, f, e) }}
}

func symOf(pol argPolicy, f *ssa.Function, e *Expr) ival {
	elem := false
	k := e.K
	if e.Op == "elems" {
		elem = true
		e = e.Args[0]
	}
	for i, a := range argSyms(f) {
		if a == e {
			return pol(f, i, f.Params[i].Name(), f.Params[i].Type(), elem)
		}
	}
	return defaultOf(k)
}

func (c *classInv) cell(key string) (ival, bool) {
	if key == "" {
		return ivTop, false
	}
	if exportedCell(key) {
		return ivTop, false // any program may write it
	}
	if c.cur != nil {
		c.cur.reads[key] = true
	}
	v, ok := c.val[key]
	if !ok {
		// a cell nothing in the module has set up yet
		T := key[:strings.LastIndex(key, ".")]
		if c.alloc[T] {
			return ivNone, true
		}
		return ivTop, false
	}
	return v, true
}

func newClassInv(w *World, runs []*opRun, pol argPolicy) *classInv {
	c := &classInv{w: w, runs: runs, val: map[string]ival{}, alias: map[string]map[string]bool{}, alloc: map[string]bool{}, policy: pol}
	for _, r := range runs {
		if r.res.err != "" {
			c.failed = append(c.failed, opName(r.f)+": "+r.res.err)
		}
		for _, a := range r.alloc {
			c.noteAlloc(a.T)
		}
	}
	for c.round = 0; c.round < 60; c.round++ {
		c.next = map[string]ival{}
		for _, r := range runs {
			stale := r.gives == nil
			for k := range r.reads {
				if c.chg[k] {
					stale = true
				}
			}
			if stale {
				r.reads, r.gives, r.tried = map[string]bool{}, map[string]ival{}, map[string]bool{}
				c.cur = r
				c.contribute(r)
				c.cur = nil
			}
			for k, v := range r.gives {
				if o, ok := c.next[k]; ok {
					v = o.join(v)
				}
				c.next[k] = v
			}
		}
		for k, as := range c.alias {
			for a := range as {
				for _, suf := range []string{"", "[]", "#len", "[]#len"} {
					if v, ok := c.next[a+suf]; ok {
						if o, ok := c.next[k+suf]; ok {
							v = o.join(v)
						}
						c.next[k+suf] = v
					}
				}
			}
		}
		changed := false
		c.chg = map[string]bool{}
		for k, v := range c.next {
			old, ok := c.val[k]
			if !ok {
				old = ivNone
			}
			n := old.join(v)
			if n == old && ok {
				continue
			}
			if c.round > 6 {
				n = widen(old, n)
			}
			if c.round > 25 {
				if n.hi > old.hi {
					n.hi = inf
				}
				if n.lo < old.lo {
					n.lo = -inf
				}
			}
			c.val[k] = n
			c.chg[k] = true
			changed = true
		}
		if !changed {
			return c
		}
	}
	panic("class invariants do not converge")
}

func (c *classInv) noteAlloc(T types.Type) {
	s := structOf(T)
	if s == nil {
		if a, ok := T.Underlying().(*types.Array); ok {
			c.noteAlloc(a.Elem())
		}
		return
	}
	k := typeKey(T)
	if c.alloc[k] {
		return
	}
	c.alloc[k] = true
	for i := 0; i < s.NumFields(); i++ {
		c.noteAlloc(s.Field(i).Type())
	}
}

func (c *classInv) put(key string, v ival) {
	c.cur.tried[key] = true
	if key == "" || v.empty() {
		return
	}
	if o, ok := c.cur.gives[key]; ok {
		v = o.join(v)
	}
	c.cur.gives[key] = v
}

type recorder struct {
	c   *classInv
	st  *sstate
	env *ienv
	g   *symEng
	n   int
}

// value records what a cell holds.
func (r *recorder) value(key string, v *Expr, T types.Type) {
	if key == "" || r.n > 3000 {
		return
	}
	r.n++
	switch u := T.Underlying().(type) {
	case *types.Basic:
		if u.Info()&(types.IsNumeric|types.IsBoolean) != 0 && u.Info()&types.IsComplex == 0 {
			r.c.put(key, r.env.eval(v))
		}
	case *types.Slice:
		r.c.put(key+"#len", posLen(r.env.eval(lenE(v))))
		r.slice(key, v, u.Elem(), 0)
	case *types.Array:
		r.array(key, v, u.Elem(), 0)
	}
}

func (r *recorder) slice(key string, v *Expr, E types.Type, d int) {
	if os.Getenv("VSA_DBG") != "" && strings.Contains(key, os.Getenv("VSA_DBG")) {
		println("slice", key, v.String(), v.Op)
		if v.Op == "make" {
			println("   ->", r.st.read(arrKey(v), 0x6f).String(), len(v.Args))
			for _, q := range r.st.quants {
				println("      q", q.key.String(), q.key.ID, arrKey(v).ID)
			}
		}
	}
	if d > 12 {
		return
	}
	for v.Op == "slice" {
		v = v.Args[0]
	}
	switch v.Op {
	case "ite":
		if e := r.env.assume(v.Args[0], true); e != nil {
			(&recorder{r.c, r.st, e, r.g, r.n}).slice(key, v.Args[1], E, d+1)
		}
		if e := r.env.assume(v.Args[0], false); e != nil {
			(&recorder{r.c, r.st, e, r.g, r.n}).slice(key, v.Args[2], E, d+1)
		}
	case "make", "obj":
		a := r.st.read(arrKey(v), 'o')
		r.array(key, a, E, d+1)
	case "append":
		r.slice(key, v.Args[0], E, d+1)
		a := r.st.read(arrKey(v), 'o')
		r.array(key, a, E, d+1)
	case "in", "sel":
		k := ownerKey(v)
		if k != "" && k != key {
			r.link(key+"[]", k+"[]")
		}
	case "fld": // slice of an array field
		k := ownerKey(v)
		if k != "" {
			r.link(key+"[]", k+"[]")
		}
	case "const":
	case "loopexit":
		n, inits, _, steps, _, _ := loopParts(v.Args[0])
		var idx int
		if _, err := sscan(v.Str, &idx); err == nil && idx < n {
			r.slice(key, inits[idx], E, d+1)
			r.slice(key, steps[idx], E, d+1)
		}
	case "bv":
	default:
		r.top(key+"[]", E)
	}
}

func (r *recorder) link(a, b string) {
	for _, p := range [][2]string{{a, b}, {b, a}} {
		if r.c.alias[p[0]] == nil {
			r.c.alias[p[0]] = map[string]bool{}
		}
		r.c.alias[p[0]][p[1]] = true
	}
}

func (r *recorder) top(key string, E types.Type) {
	switch u := E.Underlying().(type) {
	case *types.Slice:
		r.c.put(key+"[]#len", iv(0, 1<<31))
		r.top(key+"[]", u.Elem())
	case *types.Array:
		r.top(key+"[]", u.Elem())
	case *types.Basic:
		r.c.put(key, defaultOf(kindOf(E)))
	}
}

func (r *recorder) array(key string, a *Expr, E types.Type, d int) {
	if d > 14 {
		r.top(key+"[]", E)
		return
	}
	if k := kindOf(E); k != 'o' && k != 's' {
		r.c.put(key+"[]", r.env.arr(a, k))
		return
	}
	if structOf(E) != nil {
		return // element fields are named by their own type
	}
	// slices of slices
	elem := func(v *Expr) {
		switch u := E.Underlying().(type) {
		case *types.Slice:
			r.c.put(key+"[]#len", posLen(r.env.eval(lenE(v))))
			r.slice(key+"[]", v, u.Elem(), d+1)
		case *types.Array:
			r.array(key+"[]", v, u.Elem(), d+1)
		}
	}
	switch a.Op {
	case "zero":
		if _, ok := E.Underlying().(*types.Slice); ok {
			r.c.put(key+"[]#len", iv(0, 0))
		}
	case "store":
		r.array(key, a.Args[0], E, d+1)
		elem(a.Args[2])
	case "fill":
		if a.Str != "all" {
			r.array(key, a.Args[0], E, d+1)
		}
		elem(a.Args[3])
	case "ite":
		r.array(key, a.Args[1], E, d+1)
		r.array(key, a.Args[2], E, d+1)
	case "copied", "concat":
		r.array(key, a.Args[0], E, d+1)
		r.array(key, a.Args[2], E, d+1)
	case "loopexit":
		n, inits, _, steps, _, _ := loopParts(a.Args[0])
		var idx int
		if _, err := sscan(a.Str, &idx); err == nil && idx < n {
			r.array(key, inits[idx], E, d+1)
			r.array(key, steps[idx], E, d+1)
		}
	case "bv":
	case "A0":
		if k := ownerKey(a); k != "" && k != key {
			r.link(key+"[]", k+"[]")
		}
	}
}

func sscan(s string, i *int) (int, error) {
	n := 0
	if s == "" {
		return 0, errNoNum
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return 0, errNoNum
		}
		n = n*10 + int(c-'0')
	}
	*i = n
	return 1, nil
}

type strErr string

func (e strErr) Error() string { return string(e) }

var errNoNum = strErr("not a number")

func (c *classInv) contribute(run *opRun) {
	st := run.res.st
	if st == nil || run.res.err != "" || !run.res.ok {
		return
	}
	src := c.srcFor(run.f)
	env := newIenv(src)
	if os.Getenv("VSA_FUEL") != "" {
		defer func() {
			if n := 60000 - src.fuel; n > 20000 {
				println("fuel", c.round, n, opName(run.f))
			}
		}()
	}
	rec := &recorder{c: c, st: st, env: env, g: run.g}
	for _, k := range sortedKeys(st.heap) {
		switch k.Op {
		case "fld":
			if T := run.g.keyT[k]; T != nil {
				rec.value(ownerKey(k), st.heap[k], T)
			}
		case "arrOf":
			if key := ownerKey(k); key != "" && freshlessRoot(k) {
				if E := elemTypeOf(run.g, k.Args[0]); E != nil {
					rec.array(strings.TrimSuffix(key, ""), st.heap[k], E, 0)
				}
			}
		}
	}
	for _, q := range st.quants {
		c.quant(run, rec, q)
	}
	// new objects: cells that were not written are zero
	for _, a := range run.alloc {
		if a.e.bound {
			continue
		}
		if a.n {
			c.freshElems(rec, a)
		} else {
			c.freshObj(rec, a.e, a.T)
		}
	}
	for _, ls := range run.loops {
		var lenv *ienv
		var lrec *recorder
		for _, a := range run.alloc {
			if !a.e.bound || !containsIter(a.e, ls) {
				continue
			}
			if lrec == nil {
				lenv = env.with(copyIv(env.loopFix(ls.expr)))
				lrec = &recorder{c: c, st: ls.latch, env: lenv, g: run.g}
			}
			if a.n {
				c.freshElems(lrec, a)
			} else {
				c.freshObj(lrec, a.e, a.T)
			}
		}
	}
	// storage handed out
	for r, T := range run.g.leaks {
		if key := ownerKey(r); key != "" {
			rec.top(key, T)
		}
	}
	// a store the summary lost
	for a, T := range run.g.wrote {
		key := ownerKey(a)
		b, ok := T.Underlying().(*types.Basic)
		if key == "" || !ok || b.Info()&(types.IsNumeric|types.IsBoolean) == 0 || b.Info()&types.IsComplex != 0 {
			continue
		}
		if !c.cur.tried[key] {
			c.put(key, defaultOf(kindOf(T)))
			if os.Getenv("VSA_LOST") != "" && c.round == 0 {
				println("lost", opName(run.f), key, a.String())
			}
		}
	}
}

// containsIter: the object is made directly in an iteration of this loop.
func containsIter(e *Expr, ls *loopSum) bool {
	args := e.Args
	if e.Op == "make" {
		args = args[1:]
	}
	return len(args) == ls.depth+1
}

func freshlessRoot(k *Expr) bool { return !freshRoot(k) }

func elemTypeOf(g *symEng, root *Expr) types.Type {
	var T types.Type
	switch root.Op {
	case "in":
		T = g.keyT[root.Args[0]]
		if T == nil && root.Args[0].Op == "fld" {
			T = fieldType(root.Args[0])
		}
	case "fld":
		T = g.keyT[root]
		if T == nil && fldOwner[root] != nil {
			s := structOf(fldOwner[root])
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == root.Str {
					T = s.Field(i).Type()
				}
			}
		}
	case "sel":
		// element of a slice of slices
		a := root.Args[0]
		for a.Op == "store" || a.Op == "fill" {
			a = a.Args[0]
		}
		if a.Op == "A0" {
			T = elemTypeOf(g, a.Args[0])
		}
		_ = T
	}
	if T == nil {
		return nil
	}
	switch u := T.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

func (c *classInv) quant(run *opRun, rec *recorder, q quant) {
	key := ownerKey(q.key)
	if key == "" {
		return
	}
	hs := map[*Expr]ival{}
	for _, f := range q.key.free {
		if isHole(f) {
			hs[f] = iv(0, 1<<31)
		}
	}
	hs[q.hole] = iv(0, 1<<31)
	env := rec.env.with(hs)
	r2 := &recorder{c: c, st: rec.st, env: env, g: run.g}
	if q.key.Op == "arrOf" {
		if E := elemTypeOf(run.g, q.key.Args[0]); E != nil {
			r2.array(key, q.val, E, 0)
		}
		return
	}
	if q.key.Op == "fld" {
		if T := fieldType(q.key); T != nil {
			r2.value(key, q.val, T)
		}
	}
}

func fieldType(k *Expr) types.Type {
	if fldOwner[k] == nil {
		return nil
	}
	s := structOf(fldOwner[k])
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == k.Str {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (c *classInv) freshObj(rec *recorder, o *Expr, T types.Type) {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			a := fldE(o, f.Name(), T)
			if structOf(f.Type()) != nil {
				c.freshObj(rec, a, f.Type())
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Array); ok {
				rec.value(ownerKey(a), rec.st.read(arrKey(a), 'o'), f.Type())
				if E := f.Type().Underlying().(*types.Array).Elem(); structOf(E) != nil {
					c.freshObj(rec, elemE(a, constI(0)), E)
				}
				continue
			}
			rec.value(ownerKey(a), rec.st.read(a, kindOf(f.Type())), f.Type())
		}
	case *types.Array:
		if structOf(u.Elem()) != nil {
			c.freshObj(rec, elemE(o, holeAt(9)), u.Elem())
		}
	}
}

// freshElems: the elements of a new slice of structures.
func (c *classInv) freshElems(rec *recorder, a allocRec) {
	if structOf(a.T) == nil {
		return
	}
	el := elemE(a.e, holeAt(9))
	env := rec.env.with(map[*Expr]ival{holeAt(9): iv(0, 1<<31)})
	c.freshObj(&recorder{c: c, st: rec.st, env: env, g: rec.g}, el, a.T)
}

func (c *classInv) keys() []string {
	var ks []string
	for k := range c.val {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func posLen(v ival) ival {
	if v.lo < 0 {
		v.lo = 0
	}
	return v
}

func exportedCell(key string) bool {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return false
	}
	f, t := key[i+1:], key[:i]
	t = t[strings.LastIndex(t, ".")+1:]
	return f != "" && f[0] >= 'A' && f[0] <= 'Z' && t != "" && t[0] >= 'A' && t[0] <= 'Z'
}
