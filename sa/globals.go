package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tables: package variables that no function of the module changes, whose
// contents are set by straight-line initialisation. Exported ones are taken to
// be left alone by other code as well.

func (w *World) tables() map[*ssa.Global]bool {
	if w.tabs != nil {
		return w.tabs
	}
	w.tabs = map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	for _, f := range w.Funcs {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					gl, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if st, ok := in.(*ssa.Store); ok && st.Addr == gl && st.Val != gl {
						bad[gl] = true
						continue
					}
					if v, ok := in.(ssa.Value); !ok || !readOnlyUse(v, gl, 0) {
						bad[gl] = true
					}
				}
			}
		}
	}
	for p, pkg := range w.SSA {
		if !strings.HasPrefix(p, modPath) {
			continue
		}
		for _, m := range pkg.Members {
			if gl, ok := m.(*ssa.Global); ok && !bad[gl] && gl.Name() != "init$guard" {
				w.tabs[gl] = true
			}
		}
	}
	return w.tabs
}

// readOnlyUse says whether what is reached through v, computed from x, is only
// looked at.
func readOnlyUse(v ssa.Value, x ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return true
		}
		if kindOf(y.Type()) != 'o' {
			return true
		}
	case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.Lookup, *ssa.Extract:
	case *ssa.Call:
		b, ok := y.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	case *ssa.Range:
		for _, r := range *y.Referrers() {
			if n, ok := r.(*ssa.Next); !ok || !readOnlyUse(n, y, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Next:
	case *ssa.BinOp:
		return true
	default:
		return false
	}
	if kindOf(v.Type()) != 'o' {
		return true
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		rv, ok := r.(ssa.Value)
		if !ok || !readOnlyUse(rv, v, depth+1) {
			return false
		}
	}
	return true
}

// tableState is the state in which the tables have been initialised.
func (g *symEng) tableState() *sstate {
	st := &sstate{heap: map[*Expr]*Expr{}}
	tabs := g.w.tables()
	seen := map[*ssa.Package]bool{}
	for gl := range tabs {
		seen[gl.Pkg] = true
	}
pkgs:
	for p := range seen {
		f := p.Func("init")
		if f == nil {
			continue
		}
		// what may be evaluated: straight-line stores of known values
		ok := map[ssa.Value]bool{}
		known := func(v ssa.Value) bool {
			if _, isC := v.(*ssa.Const); isC {
				return true
			}
			if gl, isG := v.(*ssa.Global); isG {
				return tabs[gl]
			}
			return ok[v]
		}
		local := &sstate{heap: map[*Expr]*Expr{}}
		fr := &sframe{fn: f, env: map[ssa.Value]*Expr{}, ctx: "tables:"}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Store, *ssa.MakeMap, *ssa.MapUpdate, *ssa.Convert, *ssa.ChangeType, *ssa.BinOp, *ssa.UnOp:
				default:
					continue
				}
				all := true
				for _, op := range in.Operands(nil) {
					if *op != nil && !known(*op) {
						all = false
					}
				}
				if !all || b.Index > 1 {
					// part of a table is not known: leave the package's tables out
					part := false
					switch x := in.(type) {
					case *ssa.Store:
						_, whole := x.Addr.(*ssa.Global)
						part = !whole && ok[x.Addr]
					case *ssa.MapUpdate:
						part = ok[x.Map]
					}
					if part {
						continue pkgs
					}
					continue
				}
				if v, isV := in.(ssa.Value); isV {
					ok[v] = true
				}
				g.instr(fr, in, local)
			}
		}
		for k, v := range local.heap {
			st.heap[k] = v
		}
	}
	return st
}
