package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The line a log function names is that of its caller: on every path of calls
// from the function to runtime.Caller, the number of frames skipped is the
// number of calls on the path, and one.

func isLogFunc(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || f.Synthetic != "" || f.Parent() != nil || !f.Signature.Variadic() {
		return false
	}
	ps := f.Signature.Params()
	if ps.Len() < 2 {
		return false
	}
	b, ok := ps.At(ps.Len() - 2).Type().Underlying().(*types.Basic)
	s, ok2 := ps.At(ps.Len() - 1).Type().Underlying().(*types.Slice)
	if !ok || !ok2 || b.Kind() != types.String {
		return false
	}
	it, ok := s.Elem().Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0
}

type frameWalk struct {
	c     *Ctx
	root  *ssa.Function
	found int
}

// intOf evaluates an integer of constants and of parameters with known values.
func intOf(v ssa.Value, env map[ssa.Value]int64) (int64, bool) {
	if n, ok := env[v]; ok {
		return n, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && kindOf(x.Type()) == 'i' {
			return x.Int64(), true
		}
	case *ssa.Convert:
		return intOf(x.X, env)
	case *ssa.ChangeType:
		return intOf(x.X, env)
	case *ssa.BinOp:
		a, ok := intOf(x.X, env)
		b, ok2 := intOf(x.Y, env)
		if ok && ok2 {
			switch x.Op.String() {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			}
		}
	}
	return 0, false
}

func (w *frameWalk) walk(path []*ssa.Function, env map[ssa.Value]int64) {
	f := path[len(path)-1]
	names := func() string {
		var ns []string
		for _, p := range path {
			ns = append(ns, opName(p))
		}
		return strings.Join(ns, " -> ")
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			callee := call.Common().StaticCallee()
			if mc, ok := call.Common().Value.(*ssa.MakeClosure); ok {
				callee, _ = mc.Fn.(*ssa.Function)
			}
			if callee == nil {
				continue
			}
			extra := int64(0)
			switch callee.String() {
			case "runtime.Callers":
				extra = 1
				fallthrough
			case "runtime.Caller":
				w.found++
				n, ok := intOf(call.Common().Args[0], env)
				switch want := int64(len(path)) + extra; {
				case !ok:
					w.c.Bad("frame", opName(w.root), in.Pos(), "%s names the line of a frame that is not known: %s", opName(w.root), names())
				case n != want:
					w.c.Bad("frame", opName(w.root), in.Pos(), "%s skips %d frames where its caller is %d away: %s", opName(w.root), n, want, names())
				}
				continue
			}
			if callee.Pkg == nil || callee.Pkg != w.root.Pkg {
				continue
			}
			seen := len(path) > 12
			for _, p := range path {
				seen = seen || p == callee
			}
			if seen {
				continue
			}
			if _, ok := in.(*ssa.Go); ok {
				continue
			}
			env2 := map[ssa.Value]int64{}
			for i, p := range callee.Params {
				if i < len(call.Common().Args) {
					if n, ok := intOf(call.Common().Args[i], env); ok {
						env2[p] = n
					}
				}
			}
			if mc, ok := call.Common().Value.(*ssa.MakeClosure); ok {
				for i, fv := range callee.FreeVars {
					if n, ok := intOf(mc.Bindings[i], env); ok {
						env2[fv] = n
					}
				}
			}
			w.walk(append(path[:len(path):len(path)], callee), env2)
		}
	}
}

func checkFrames(c *Ctx) {
	c.Rule("frame", "the file and line of a message are those of the call that logs it", 10)
	for _, f := range c.W.Funcs {
		if f.Pkg == nil || relPkg(f.Pkg.Pkg) != "pkg/framework/debug" && relPkg(f.Pkg.Pkg) != "framework/debug" || !isLogFunc(f) {
			continue
		}
		w := &frameWalk{c: c, root: f}
		w.walk([]*ssa.Function{f}, map[ssa.Value]int64{})
		if w.found > 0 {
			c.Ob("frame", fmt.Sprint(opName(f)))
			c.Analysed(opName(f))
		}
	}
}
