package main

import (
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
)

// The effect analysis computes, for every function, which memory it may write,
// named by access paths from its parameters ("p1[]": the elements of the
// second parameter), free variables ("f0"), and package-level variables
// ("g:name"). It is flow-insensitive and interprocedural (fixpoint over the
// type-resolved call graph). A pointer cell and what it points to share a path.

type effPath = string

type effSum struct {
	writes  map[effPath]effSite // path -> one place that writes it
	rets    []map[effPath]bool  // what result i may refer to
	retains map[[2]string]effSite
}

type effSite struct {
	pos token.Pos
	fn  *ssa.Function
	via *ssa.Function // the callee that does it, if not fn itself

	slice bool // the stored value is a slice
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

type effModel struct {
	w    *World
	cg   *callgraph.Graph
	sums map[*ssa.Function]*effSum
	pts  map[*ssa.Function]map[ssa.Value]map[effPath]bool
	cell map[*ssa.Function]map[string]map[effPath]map[effPath]bool // contents of local cells, by allocation
	out  map[ssa.CallInstruction][]*ssa.Function
	chg  bool

	argMemo map[ssa.Value]map[effPath]bool // of the call at hand
}

func isRefType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRefType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRefType(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

func ext(p effPath, s string) effPath {
	r := p + s
	n := 0
	for i := 0; i < len(r); i++ {
		if r[i] == '.' || r[i] == '[' {
			if n++; n > 3 {
				return r[:i]
			}
		}
	}
	return r
}

func rootOf(p effPath) string {
	if i := strings.IndexAny(p, ".["); i >= 0 {
		return p[:i]
	}
	return p
}

func newEffModel(w *World, cg *callgraph.Graph) *effModel {
	m := &effModel{w: w, cg: cg, sums: map[*ssa.Function]*effSum{}, pts: map[*ssa.Function]map[ssa.Value]map[effPath]bool{},
		cell: map[*ssa.Function]map[string]map[effPath]map[effPath]bool{}, out: map[ssa.CallInstruction][]*ssa.Function{}}
	for _, n := range cg.Nodes {
		for _, e := range n.Out {
			if e.Site != nil {
				m.out[e.Site] = append(m.out[e.Site], e.Callee.Func)
			}
		}
	}
	for _, f := range w.Funcs {
		m.sums[f] = &effSum{writes: map[effPath]effSite{}, retains: map[[2]string]effSite{}, rets: make([]map[effPath]bool, f.Signature.Results().Len())}
		for i := range m.sums[f].rets {
			m.sums[f].rets[i] = map[effPath]bool{}
		}
		m.pts[f] = map[ssa.Value]map[effPath]bool{}
		m.cell[f] = map[string]map[effPath]map[effPath]bool{}
	}
	for round := 0; round < 40; round++ {
		m.chg = false
		for _, f := range w.Funcs {
			m.pass(f)
		}
		if os.Getenv("VSA_EFFD") != "" {
			tot, big := 0, 0
			var bf *ssa.Function
			for f, s := range m.sums {
				n := len(s.writes) + len(s.retains)
				tot += n
				if n > big {
					big, bf = n, f
				}
			}
			println(round, tot, big, bf.String())
		}
		if !m.chg {
			return m
		}
	}
	panic("the effect analysis does not converge")
}

func (m *effModel) of(f *ssa.Function, v ssa.Value) map[effPath]bool {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == v {
				return map[effPath]bool{"p" + itoa(i): true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == v {
				return map[effPath]bool{"f" + itoa(i): true}
			}
		}
	case *ssa.Global:
		return map[effPath]bool{"g:" + strings.TrimPrefix(v.String(), modPath+"/"): true}
	}
	return m.pts[f][v]
}

func itoa(i int) string {
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func (m *effModel) add(f *ssa.Function, v ssa.Value, ps map[effPath]bool) {
	d := m.pts[f][v]
	if d == nil {
		d = map[effPath]bool{}
		m.pts[f][v] = d
	}
	for p := range ps {
		if !d[p] {
			d[p] = true
			m.chg = true
		}
	}
}

func (m *effModel) addP(f *ssa.Function, v ssa.Value, p effPath) {
	m.add(f, v, map[effPath]bool{p: true})
}

// load resolves local cells to what was stored in them.
func (m *effModel) load(f *ssa.Function, ps map[effPath]bool) map[effPath]bool {
	plain := true
	for p := range ps {
		if p[0] == 'a' && len(m.cell[f][rootOf(p)]) > 0 {
			plain = false
			break
		}
	}
	if plain {
		return ps
	}
	out := map[effPath]bool{}
	for p := range ps {
		out[p] = true
		if strings.HasPrefix(p, "a") {
			for c, vs := range m.cell[f][rootOf(p)] {
				if c == p {
					for x := range vs {
						out[x] = true
					}
				} else if strings.HasPrefix(p, c) && (p[len(c)] == '.' || p[len(c)] == '[') {
					for x := range vs {
						out[ext(x, p[len(c):])] = true
					}
				} else if strings.HasPrefix(c, p) && (c[len(p)] == '.' || c[len(p)] == '[') {
					for x := range vs {
						out[x] = true
					}
				}
			}
		}
	}
	return out
}

func (m *effModel) write(f *ssa.Function, p effPath, s effSite) {
	w := m.sums[f].writes
	if _, ok := w[p]; !ok {
		w[p] = s
		m.chg = true
	}
}

func (m *effModel) storeTo(f *ssa.Function, addr map[effPath]bool, val map[effPath]bool, s effSite) {
	for p := range addr {
		if strings.HasPrefix(p, "a") {
			if len(val) == 0 {
				continue
			}
			rt := rootOf(p)
			if m.cell[f][rt] == nil {
				m.cell[f][rt] = map[effPath]map[effPath]bool{}
			}
			c := m.cell[f][rt][p]
			if c == nil {
				c = map[effPath]bool{}
				m.cell[f][rt][p] = c
			}
			for x := range val {
				if !c[x] && x != p {
					c[x] = true
					m.chg = true
				}
			}
			continue
		}
		m.write(f, p, s)
		if !s.slice {
			continue
		}
		for x := range val {
			if strings.HasPrefix(x, "a") {
				for y := range m.load(f, map[effPath]bool{x: true}) {
					if y[0] != 'a' {
						m.retain(f, p, y, s)
					}
				}
				continue
			}
			m.retain(f, p, x, s)
		}
	}
}

func (m *effModel) retain(f *ssa.Function, p, x effPath, s effSite) {
	k := [2]string{p, x}
	if _, ok := m.sums[f].retains[k]; !ok {
		m.sums[f].retains[k] = s
		m.chg = true
	}
}

func (m *effModel) pass(f *ssa.Function) {
	for _, b := range f.Blocks {
		for i, in := range b.Instrs {
			site := effSite{pos: in.Pos(), fn: f}
			switch x := in.(type) {
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
				m.addP(f, x.(ssa.Value), "a"+x.(ssa.Value).Name()+"@"+itoa(b.Index)+"_"+itoa(i))
			case *ssa.FieldAddr:
				n := structOf(x.X.Type().Underlying().(*types.Pointer).Elem()).Field(x.Field).Name()
				for p := range m.load(f, m.of(f, x.X)) {
					m.addP(f, x, ext(p, "."+n))
				}
			case *ssa.Field:
				n := structOf(x.X.Type()).Field(x.Field).Name()
				for p := range m.of(f, x.X) {
					m.add(f, x, m.load(f, map[effPath]bool{ext(p, "."+n): true}))
				}
			case *ssa.IndexAddr:
				for p := range m.of(f, x.X) {
					m.addP(f, x, ext(p, "[]"))
				}
			case *ssa.Index:
				for p := range m.of(f, x.X) {
					m.addP(f, x, ext(p, "[]"))
				}
			case *ssa.Lookup:
				if isRefType(x.Type()) {
					for p := range m.load(f, m.of(f, x.X)) {
						m.add(f, x, m.load(f, map[effPath]bool{ext(p, "[]"): true}))
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && isRefType(x.Type()) {
					m.add(f, x, m.load(f, m.of(f, x.X)))
				}
			case *ssa.Phi:
				for _, e := range x.Edges {
					m.add(f, x, m.of(f, e))
				}
			case *ssa.Slice:
				m.add(f, x, m.of(f, x.X))
			case *ssa.ChangeType:
				m.add(f, x, m.of(f, x.X))
			case *ssa.ChangeInterface:
				m.add(f, x, m.of(f, x.X))
			case *ssa.MakeInterface:
				m.add(f, x, m.of(f, x.X))
			case *ssa.TypeAssert:
				m.add(f, x, m.of(f, x.X))
			case *ssa.Convert:
				if isRefType(x.Type()) {
					m.add(f, x, m.of(f, x.X))
				}
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					if isRefType(x.Type()) {
						m.callRet(f, c, x.Index, x)
					}
				} else if isRefType(x.Type()) {
					m.add(f, x, m.of(f, x.Tuple))
				}
			case *ssa.Range:
				m.add(f, x, m.of(f, x.X))
			case *ssa.Next:
				for p := range m.of(f, x.Iter) {
					m.add(f, x, m.load(f, map[effPath]bool{ext(p, "[]"): true}))
				}
			case *ssa.MakeClosure:
				for _, bd := range x.Bindings {
					m.add(f, x, m.load(f, m.of(f, bd)))
				}
			case *ssa.Store:
				var v map[effPath]bool
				if isRefType(x.Val.Type()) {
					v = m.of(f, x.Val)
				}
				site.slice = isSlice(x.Val.Type())
				m.storeTo(f, m.of(f, x.Addr), v, site)
			case *ssa.MapUpdate:
				for p := range m.load(f, m.of(f, x.Map)) {
					var v map[effPath]bool
					if isRefType(x.Value.Type()) {
						v = m.of(f, x.Value)
					}
					m.storeTo(f, map[effPath]bool{ext(p, "[]"): true}, v, site)
				}
			case *ssa.Return:
				for i, r := range x.Results {
					if !isRefType(r.Type()) {
						continue
					}
					for p := range m.load(f, m.of(f, r)) {
						if !m.sums[f].rets[i][p] {
							m.sums[f].rets[i][p] = true
							m.chg = true
						}
					}
				}
			case ssa.CallInstruction:
				m.call(f, x, site)
			}
		}
	}
}

// bind maps a path of the callee to paths of the caller.
func (m *effModel) bind(f *ssa.Function, c ssa.CallInstruction, callee *ssa.Function, p effPath) map[effPath]bool {
	out := map[effPath]bool{}
	switch p[0] {
	case 'g':
		out[p] = true
	case 'p', 'f':
		j := 1
		n := 0
		for j < len(p) && p[j] >= '0' && p[j] <= '9' {
			n = n*10 + int(p[j]-'0')
			j++
		}
		suf := p[j:]
		var arg ssa.Value
		cc := c.Common()
		if p[0] == 'p' {
			if cc.IsInvoke() {
				if n == 0 {
					arg = cc.Value
				} else if n-1 < len(cc.Args) {
					arg = cc.Args[n-1]
				}
			} else if n < len(cc.Args) {
				arg = cc.Args[n]
			}
			if arg != nil {
				if m.argMemo[arg] == nil {
					m.argMemo[arg] = m.load(f, m.of(f, arg))
				}
				for q := range m.argMemo[arg] {
					out[ext(q, suf)] = true
				}
			}
		} else {
			// the closure value carries all its bindings
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok && mc.Fn == callee && n < len(mc.Bindings) {
				for q := range m.load(f, m.of(f, mc.Bindings[n])) {
					out[ext(q, suf)] = true
				}
			} else {
				for q := range m.load(f, m.of(f, cc.Value)) {
					out[ext(q, suf)] = true
				}
			}
		}
	}
	return out
}

func (m *effModel) callRet(f *ssa.Function, c *ssa.Call, i int, dst ssa.Value) {
	m.argMemo = map[ssa.Value]map[effPath]bool{}
	for _, callee := range m.out[c] {
		s := m.sums[callee]
		if s == nil || i >= len(s.rets) {
			continue
		}
		for p := range s.rets[i] {
			if p[0] == 'a' {
				m.addP(f, dst, "a"+dst.Name()+"~"+itoa(c.Block().Index))
				continue
			}
			m.add(f, dst, m.bind(f, c, callee, p))
		}
	}
}

// extern: library calls that write through an argument.
var extWrites = map[string]int{"sort.Slice": 0, "sort.SliceStable": 0, "sort.Float64s": 0, "sort.Ints": 0, "sort.Strings": 0,
	"slices.Sort": 0, "slices.SortFunc": 0, "slices.SortStableFunc": 0, "slices.Reverse": 0, "sort.Sort": 0, "sort.Stable": 0}

func (m *effModel) call(f *ssa.Function, c ssa.CallInstruction, site effSite) {
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "copy", "clear":
			ps := map[effPath]bool{}
			for p := range m.of(f, cc.Args[0]) {
				ps[ext(p, "[]")] = true
			}
			var v map[effPath]bool
			if bi.Name() == "copy" {
				if st, ok := cc.Args[1].Type().Underlying().(*types.Slice); ok && isRefType(st.Elem()) {
					v = map[effPath]bool{}
					for p := range m.load(f, m.of(f, cc.Args[1])) {
						v[ext(p, "[]")] = true
					}
				}
			}
			m.storeTo(f, ps, v, site)
		case "delete":
			ps := map[effPath]bool{}
			for p := range m.load(f, m.of(f, cc.Args[0])) {
				ps[ext(p, "[]")] = true
			}
			m.storeTo(f, ps, nil, site)
		case "append":
			if v, ok := c.(ssa.Value); ok {
				m.add(f, v, m.of(f, cc.Args[0]))
				m.addP(f, v, "a"+v.Name()+"+"+itoa(c.Block().Index))
				if len(cc.Args) > 1 {
					st, isSl := cc.Args[1].Type().Underlying().(*types.Slice)
					var val map[effPath]bool
					if isSl && isRefType(st.Elem()) {
						val = map[effPath]bool{}
						for p := range m.load(f, m.of(f, cc.Args[1])) {
							for x := range m.load(f, map[effPath]bool{ext(p, "[]"): true}) {
								val[x] = true
							}
						}
					}
					ps := map[effPath]bool{}
					for p := range m.of(f, v) {
						ps[ext(p, "[]")] = true
					}
					m.storeTo(f, ps, val, site)
				}
			}
		}
		return
	}
	if callee := cc.StaticCallee(); callee != nil && m.sums[callee] == nil {
		name := callee.String()
		if callee.Origin() != nil {
			name = callee.Origin().String()
		}
		if i, ok := extWrites[name]; ok && i < len(cc.Args) {
			ps := map[effPath]bool{}
			for p := range m.load(f, m.of(f, cc.Args[i])) {
				ps[ext(p, "[]")] = true
			}
			m.storeTo(f, ps, nil, site)
		}
		// an atomic or locking method writes its receiver
		if callee.Pkg != nil && strings.HasPrefix(callee.Pkg.Pkg.Path(), "sync/atomic") && len(cc.Args) > 0 && !strings.HasPrefix(callee.Name(), "Load") {
			m.storeTo(f, m.of(f, cc.Args[0]), nil, site)
		}
	}
	m.argMemo = map[ssa.Value]map[effPath]bool{}
	for _, callee := range m.out[c] {
		s := m.sums[callee]
		if s == nil {
			continue
		}
		for p, at := range s.writes {
			via := at.via
			if via == nil {
				via = callee
			}
			for q := range m.bind(f, c, callee, p) {
				if q[0] == 'a' {
					continue
				}
				m.write(f, q, effSite{pos: c.Pos(), fn: f, via: via})
			}
		}
		for k, at := range s.retains {
			via := at.via
			if via == nil {
				via = callee
			}
			for d := range m.bind(f, c, callee, k[0]) {
				for x := range m.bind(f, c, callee, k[1]) {
					if d[0] == 'a' {
						m.storeTo(f, map[effPath]bool{d: true}, map[effPath]bool{x: true}, site)
					} else if x[0] != 'a' {
						m.retain(f, d, x, effSite{pos: c.Pos(), fn: f, via: via})
					}
				}
			}
		}
		if v, ok := c.(*ssa.Call); ok && len(s.rets) == 1 && isRefType(v.Type()) {
			m.callRet(f, v, 0, v)
		}
	}
}

func sortedPathsOf(m map[effPath]effSite) []effPath {
	var out []effPath
	for p := range m {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func exportedOp(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		n := namedOf(r.Type())
		return n == nil || n.Obj().Exported()
	}
	return true
}

// holdsSlice: a slice of numbers or of slices of numbers.
func holdsSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if b, ok := s.Elem().Underlying().(*types.Basic); ok {
		return b.Info()&types.IsNumeric != 0 && b.Kind() != types.Uint8
	}
	return holdsSlice(s.Elem())
}
