package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C28", "effect analysis for sources of non-determinism over a VTA call graph; coverage of generator state by SetSeed", checkC28)
}

// unorderedOK: maps whose iteration order cannot reach a result.
var unorderedOK = map[string]string{
	"framework/voice.Allocator.sustainedNotes":    "each sustained note releases its own voices",
	"framework/param.ParameterSmoother.smoothers": "each smoother advances on its own",
	"framework/plugin local":                      "ValidateUID: the known UIDs differ, at most one can match",
}

// freshNoise: operations meant to produce different noise each time.
func freshNoise(f *ssa.Function) bool {
	p := relPkg(f.Pkg.Pkg)
	if f.Signature.Recv() != nil {
		return false
	}
	return p == "pkg/dsp/utility" || f.Name() == "NewNoiseAdapter" && p == "pkg/framework/dsp"
}

// nondet says what a call to a library function can depend on besides its arguments.
func nondet(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	n := f.Name()
	switch p := f.Pkg.Pkg.Path(); p {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Sleep", "Local", "LoadLocation":
			return "the clock"
		}
	case "math/rand", "math/rand/v2":
		if f.Signature.Recv() == nil && !strings.HasPrefix(n, "New") {
			return "the process-wide random source"
		}
	case "crypto/rand", "hash/maphash":
		return "the process-wide random source"
	case "os", "os/user", "syscall", "net", "io/ioutil":
		if p == "os" && (n == "Write" || n == "WriteString" || n == "Close" || n == "Error") {
			return ""
		}
		return "the operating system"
	case "runtime", "runtime/debug":
		return "the state of the Go runtime"
	case "sync":
		if r := f.Signature.Recv(); r != nil {
			if nm := namedOf(r.Type()); nm != nil && (nm.Obj().Name() == "Pool" && n == "Get" || nm.Obj().Name() == "Map" && n == "Range") {
				return "what other goroutines left in a " + nm.Obj().Name()
			}
		}
	case "reflect":
		if n == "Pointer" || n == "UnsafePointer" || n == "MapRange" || n == "MapKeys" {
			return "addresses or map order"
		}
	}
	return ""
}

func checkC28(c *Ctx) {
	w := c.W
	c.Rule("source", "no operation reads the clock, the process-wide random source, the environment, the scheduler, an address or the order of a map", 650)
	c.Rule("seed", "SetSeed overwrites every generator state cell that later output depends on", 4)
	m := &audioModel{w: w, cg: buildCallGraph(w), reach: map[*ssa.Function]*ssa.Function{}, parent: map[*ssa.Function]*ssa.Function{}}
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Pkg == nil || f.Synthetic != "" {
			continue
		}
		if sharedOK[relPkg(f.Pkg.Pkg)] != "" || freshNoise(f) {
			continue
		}
		if f.Object() == nil || !f.Object().Exported() {
			continue
		}
		m.roots = append(m.roots, f)
	}
	sort.Slice(m.roots, func(i, j int) bool { return m.roots[i].String() < m.roots[j].String() })
	for _, r := range m.roots {
		m.walk(r, r, nil)
	}
	var fs []*ssa.Function
	for f := range m.reach {
		if f.Pkg != nil && sharedOK[relPkg(f.Pkg.Pkg)] != "" {
			continue // diagnostics
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		name := opName(f)
		c.Ob("source", name)
		c.Analysed(name)
		bad := func(in ssa.Instruction, what string) {
			c.Bad("source", name, in.Pos(), "%s depends on %s; reached by %s", name, what, m.path(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					bad(in, "the scheduler (it starts a goroutine)")
				case *ssa.Select:
					bad(in, "the scheduler (select)")
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !unorderedMap(m, x.X, 0) {
						bad(in, "the iteration order of a map")
					}
				case *ssa.Convert:
					if isUintptr(x.Type()) && isUnsafePtr(x.X.Type()) {
						bad(in, "an address")
					}
				case ssa.CallInstruction:
					if cf := x.Common().StaticCallee(); cf != nil {
						if s := nondet(cf); s != "" {
							bad(in, s)
						}
					}
					for _, a := range x.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
							bad(in, "an address (%p)")
						}
					}
				}
			}
		}
	}
	// generators that can be seeded
	runs := classRuns(w)
	byF := map[*ssa.Function]*opRun{}
	for _, r := range runs {
		byF[r.f] = r
	}
	ms := methodsOf(w)
	for _, T := range sortedStrs(ms) {
		for _, f := range ms[T] {
			if f.Name() != "SetSeed" {
				continue
			}
			cf := newClassFlow(T, ms[T], byF)
			cf.reset = f
			rr := byF[f]
			if rr == nil || rr.res.err != "" || rr.res.st == nil {
				c.Bad("seed", opName(f), f.Pos(), "undecided")
				continue
			}
			c.covers("seed", cf, rr, cf.state(), map[string]string{})
		}
	}
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

func isUnsafePtr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

// unorderedMap: every map the value can be is on the list.
func unorderedMap(m *audioModel, v ssa.Value, d int) bool {
	p, ok := v.(*ssa.Parameter)
	if !ok {
		return unorderedOK[mapField(v)] != ""
	}
	n := m.cg.Nodes[p.Parent()]
	if d > 3 || n == nil || len(n.In) == 0 {
		return false
	}
	for i, q := range p.Parent().Params {
		if q != p {
			continue
		}
		for _, e := range n.In {
			as := e.Site.Common().Args
			if e.Site.Common().IsInvoke() || i >= len(as) || !unorderedMap(m, as[i], d+1) {
				return false
			}
		}
	}
	return true
}

// mapField names the field a map value was read from.
func mapField(v ssa.Value) string {
	if mm, ok := v.(*ssa.MakeMap); ok {
		return strings.TrimPrefix(relPkg(mm.Parent().Pkg.Pkg), "pkg/") + " local"
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	p := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return typeKey(p) + "." + p.Underlying().(*types.Struct).Field(fa.Field).Name()
}
