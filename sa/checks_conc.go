package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "type-resolved atomic-access discipline over SSA", checkC03)
	register("C04", "interprocedural lockset analysis over SSA access paths", checkC04)
	register("C05", "interprocedural lock-state typestate analysis (balance, re-entry, order)", checkC05)
}

func checkC04(c *Ctx) {
	c.Rule("guarded", "every access to data guarded by a structure's mutex happens with that mutex held (for writing, if it writes)", 60)
	c.Rule("atomic-op", "one exported operation touches the guarded data in a single critical section", 30)
	c.Rule("no-leak", "no exported operation returns a reference to guarded mutable data", 200)
	for _, w := range c.bothBuilds() {
		roots, _, m := runLocks(w, nil, func(kind, con string, in ssa.Instruction, msg string) {
			if kind == "guarded" || kind == "atomic-op" || kind == "no-leak" {
				c.Bad(kind, con, in.Pos(), "%s", msg)
			}
		}, func(kind, con string) {
			if kind == "guarded" || kind == "atomic-op" || kind == "no-leak" {
				c.Ob(kind, con)
			}
		})
		c.Note("operations analysed: %d", roots)
		c.Rule("structures", "mutex-bearing structures found in the tree", 10)
		var gs []string
		for T := range m.guards {
			gs = append(gs, strings.TrimPrefix(T.String(), modPath+"/pkg/"))
		}
		sort.Strings(gs)
		for _, g := range gs {
			c.Ob("structures", g)
		}
	}
}

func checkC05(c *Ctx) {
	c.Rule("balance", "every lock taken by an operation is released on all of its exits, is not taken twice, and is not released unheld", 60)
	c.Rule("callback", "no function value or foreign interface method is called while a lock is held", 2)
	c.Rule("order", "locks of different structures are never nested in both orders", 0)
	for _, w := range c.bothBuilds() {
		_, order, _ := runLocks(w, nil, func(kind, con string, in ssa.Instruction, msg string) {
			if kind == "balance" || kind == "callback" {
				c.Bad(kind, con, in.Pos(), "%s", msg)
			}
		}, func(kind, con string) {
			if kind == "balance" || kind == "callback" {
				c.Ob(kind, con)
			}
		})
		// cycles in the order graph
		var names []string
		for a := range order {
			names = append(names, a)
			for b := range order[a] {
				c.Ob("order", a+" before "+b)
			}
		}
		sort.Strings(names)
		for _, a := range names {
			seen := map[string]bool{}
			var dfs func(x string) bool
			dfs = func(x string) bool {
				for b := range order[x] {
					if b == a {
						return true
					}
					if !seen[b] {
						seen[b] = true
						if dfs(b) {
							return true
						}
					}
				}
				return false
			}
			if dfs(a) {
				c.BadAt("order", "cycle through "+a, "-", "%s", fmt.Sprint(order[a]))
			}
		}
	}
}

// bothBuilds returns the default build and the one with the "debug" tag,
// which has a second set of files.
func (c *Ctx) bothBuilds() []*World {
	d, err := Load(c.W.Dir, []string{"debug"})
	if err != nil {
		c.BadAt("analysis", "load with tag debug", "-", "%v", err)
		return []*World{c.W}
	}
	c.Note("also analysed with build tag debug: %d functions", len(d.Funcs))
	return []*World{c.W, d}
}

const paramType = modPath + "/pkg/framework/param.Parameter"

// configOps are the Parameter operations that set a parameter up before the
// host can reach it.
var configOps = map[string]string{
	"SetFormatter": "configures the text form while the plugin is being built",
}

func checkC03(c *Ctx) {
	c.Rule("mixed", "a field that is accessed through sync/atomic anywhere is accessed only that way once its object is shared, and its object is never copied", 8)
	c.Rule("lost-update", "an atomic is never updated by a separate load and store, unless every update of it happens under one lock", 4)
	c.Rule("parameter", "no runtime operation of a parameter writes it other than atomically", 6)
	for _, w := range c.bothBuilds() {
		atomicField := map[string]bool{}
		hasAtomic := map[*types.Named]bool{}
		for _, T := range allNamedStructs(w) {
			st := T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if n := namedOf(st.Field(i).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
					atomicField[fieldKey(T, i)] = true
					hasAtomic[T] = true
				}
			}
		}
		eachInstr(w, func(f *ssa.Function, in ssa.Instruction) {
			if call, ok := in.(ssa.CallInstruction); ok {
				sf := call.Common().StaticCallee()
				if sf != nil && sf.Pkg != nil && sf.Pkg.Pkg.Path() == "sync/atomic" && sf.Signature.Recv() == nil && len(call.Common().Args) > 0 {
					if fa, ok := stripConv(call.Common().Args[0]).(*ssa.FieldAddr); ok {
						T := namedOf(fa.X.Type())
						atomicField[fieldKey(T, fa.Field)] = true
						hasAtomic[T] = true
					} else {
						c.Ob("mixed", "atomic operand in "+opName(f))
						if _, isG := stripConv(call.Common().Args[0]).(*ssa.Global); !isG {
							c.Bad("mixed", "atomic operand in "+opName(f), in.Pos(), "cannot tell which variable this atomic operation is on")
						}
					}
				}
			}
		})
		eachInstr(w, func(f *ssa.Function, in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				T := namedOf(x.X.Type())
				if T == nil || !atomicField[fieldKey(T, x.Field)] {
					return
				}
				name := T.Obj().Name() + "." + T.Underlying().(*types.Struct).Field(x.Field).Name()
				con := opName(f) + " uses " + name
				c.Ob("mixed", con)
				if freshBase(x.X) {
					return
				}
				for _, r := range refsThrough(x) {
					switch u := r.(type) {
					case *ssa.UnOp:
						c.Bad("mixed", con, u.Pos(), "reads %s without sync/atomic, although it is shared and accessed atomically elsewhere", name)
					case *ssa.Store:
						c.Bad("mixed", con, u.Pos(), "writes %s without sync/atomic, although it is shared and accessed atomically elsewhere", name)
					case ssa.CallInstruction:
						sf := u.Common().StaticCallee()
						if sf == nil || sf.Pkg == nil || sf.Pkg.Pkg.Path() != "sync/atomic" {
							c.Bad("mixed", con, in.Pos(), "passes the address of %s to a function that is not a sync/atomic operation", name)
						}
					case *ssa.DebugRef:
					default:
						c.Bad("mixed", con, in.Pos(), "lets the address of %s escape from sync/atomic operations (%T)", name, r)
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if n, ok := types.Unalias(x.Type()).(*types.Named); ok && hasAtomic[n] {
						con := opName(f) + " copies " + n.Obj().Name()
						c.Bad("mixed", con, x.Pos(), "copies a whole %s, reading its atomic fields without sync/atomic", n.Obj().Name())
					}
				}
			}
		})
		// separate load and store
		type upd struct {
			con    string
			pos    ssa.Instruction
			locked bool
		}
		loads := map[string]bool{} // op|field key loaded earlier in the same function
		updates := map[string][]upd{}
		lockedAll := map[string]bool{}
		m0 := newLockModel(w)
		_, _, _ = runLocks(w, func(fr *lockFrame, p apath, op string, in ssa.Instruction, s *lockState) {
			if strings.HasPrefix(p.root, "A") || len(p.steps) == 0 {
				return
			}
			last := p.steps[len(p.steps)-1]
			if last.T == nil {
				return
			}
			k := fieldKey(last.T, last.Field)
			name := last.T.Obj().Name() + "." + last.T.Underlying().(*types.Struct).Field(last.Field).Name()
			locked := false
			if g := m0.guards[last.T]; g != nil {
				lp := apath{p.root, append(append([]lstep{}, p.steps[:len(p.steps)-1]...), g.mutex...)}
				locked = s.held[lp.key()] == 'W'
			}
			if strings.HasPrefix(op, "Load") {
				loads[fr.fn.String()+"|"+k] = true
				return
			}
			if strings.HasPrefix(op, "CompareAndSwap") || strings.HasPrefix(op, "Add") || strings.HasPrefix(op, "Store") || strings.HasPrefix(op, "Swap") {
				c.Ob("lost-update", fr.w.opOf+" updates "+name)
				if _, ok := lockedAll[k]; !ok {
					lockedAll[k] = true
				}
				if !locked {
					lockedAll[k] = false
				}
				if strings.HasPrefix(op, "Store") {
					updates[k] = append(updates[k], upd{fr.fn.String(), in, locked})
				}
			}
		}, func(string, string, ssa.Instruction, string) {}, func(string, string) {})
		for k, us := range updates {
			for _, u := range us {
				if loads[u.con+"|"+k] && !lockedAll[k] {
					c.Bad("lost-update", strings.ReplaceAll(u.con, modPath+"/pkg/", "")+" load-then-store", u.pos.Pos(), "loads and later stores an atomic that other operations update without the same lock: their update can be lost")
				}
			}
		}
		// parameters
		n := 0
		for _, f := range w.Funcs {
			if f.Signature.Recv() == nil || f.Parent() != nil {
				continue
			}
			T := namedOf(f.Signature.Recv().Type())
			if T == nil || T.String() != paramType || !f.Object().Exported() {
				continue
			}
			if configOps[f.Name()] != "" {
				continue
			}
			n++
			c.Ob("parameter", opName(f))
			for _, g := range staticReach(f) {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						st, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							if T := namedOf(fa.X.Type()); T != nil && T.String() == paramType && !freshBase(fa.X) {
								c.Bad("parameter", opName(f), in.Pos(), "writes %s of a live parameter with a plain store", T.Underlying().(*types.Struct).Field(fa.Field).Name())
							}
						}
					}
				}
			}
		}
	}
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return v
		}
	}
}

func refsThrough(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.ChangeType:
			out = append(out, refsThrough(x)...)
		default:
			out = append(out, r)
		}
	}
	return out
}

func eachInstr(w *World, fn func(f *ssa.Function, in ssa.Instruction)) {
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fn(f, in)
			}
		}
	}
}

// staticReach: f and every module function it reaches through static calls
// and closures.
func staticReach(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Blocks == nil {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					walk(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	walk(f)
	return out
}
