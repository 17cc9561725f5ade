package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: the layer between host and framework. pkg/plugin and pkg/vst3 are
// type-checked against a stand-in for the VST3 C header; what the host passes
// is modelled in the equations, the rest is decided on the SSA.

var hostFam = ruleFam{"C33", "c33", eqOpts{peel: 20, deep: true}, []famRule{
	{"block", "a block's channels, rate and nothing else reach the processor", 6},
	{"auto", "each sample is processed with the automation up to it", 8},
	{"note", "each note reaches the processor once, with its own data and place", 10},
	{"transport", "the transport is what the host says, where it says so", 2},
	{"stream", "a stream is read to its end and written whole, or an error", 11},
	{"state", "state passes whole between stream and component, and failures show", 3},
	{"factory", "an instance is made for the plugin's own class only", 4},
	{"value", "a parameter set by the host is the processor's, an unknown one is refused", 2},
	{"convert", "plain and normalized values convert by the parameter's range", 2},
	{"info", "a parameter is described to the host as it was built, and only those there are", 2},
	{"text", "values are shown and read by the parameter's own texts", 2},
	{"setup", "rate, block size, activation and errors pass between host and processor", 5},
	{"handle", "a callback reaches the component of its handle and no other", 12},
	{"told", "what the plugin changes itself is told to its own host handler, once and in order", 2},
}}

func init() {
	register("C33", "program equations over the host interface with modelled C calls, decided by value numbering; dominance rules over the callbacks", func(c *Ctx) {
		hostRules(c)
		hostFam.check(c)
	})
}

// hostFns lists the functions of the layer.
func hostFns(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Pkg == nil || f.Blocks == nil {
			continue
		}
		rel := relPkg(f.Pkg.Pkg)
		if rel != hostPkgs[0] && rel != hostPkgs[1] {
			continue
		}
		if n := f.Name(); strings.HasPrefix(n, "_C") || strings.HasPrefix(n, "_cgo") {
			continue
		}
		out = append(out, f)
	}
	return out
}

// exported lists the callbacks, by their //export comments.
func exportedCallbacks(w *World) map[string]bool {
	out := map[string]bool{}
	for _, p := range w.Pkgs {
		if relPkg(p.Types) != hostPkgs[0] {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					if n, ok := strings.CutPrefix(cm.Text, "//export "); ok {
						out[strings.TrimSpace(n)] = true
					}
				}
			}
		}
	}
	return out
}

func hostRules(c *Ctx) {
	c.Rule("guard", "what a handle names is used only where it was found to exist", 3)
	c.Rule("status", "an error the component reports is never answered with success", 3)
	c.Rule("view", "host memory is seen through an array large enough for any count the host gives", 3)
	c.Rule("quiet", "nothing a block's processing reaches in the layer does input or output, sleeps or starts a goroutine", 6)
	fns := hostFns(c.W)
	for _, f := range fns {
		c.Analysed(f.String())
	}
	guardRule(c, fns)
	statusRule(c, fns, exportedCallbacks(c.W))
	viewRule(c, fns)
	quietRule(c)
}

// ---- guard

// nonNilAt says whether v is known to be there in block b: some dominating
// branch compared it with nil and b lies on the other side.
func nonNilAt(v ssa.Value, b *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		bo, ok := r.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNil(bo.X) && !isNil(bo.Y) {
			continue
		}
		for _, u := range *bo.Referrers() {
			i, ok := u.(*ssa.If)
			if !ok {
				continue
			}
			s := i.Block().Succs[1]
			if bo.Op == token.NEQ {
				s = i.Block().Succs[0]
			}
			if len(s.Preds) == 1 && s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func isNil(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

// guardRule follows what getComponent, or a function that passes it on,
// returns: fields are taken and methods called only where it is not nil.
func guardRule(c *Ctx, fns []*ssa.Function) {
	lookup := map[*ssa.Function]bool{}
	for _, f := range fns {
		if mayMiss(f) {
			lookup[f] = true
		}
	}
	for grown := true; grown; {
		grown = false
		for _, f := range fns {
			if lookup[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					r, ok := in.(*ssa.Return)
					if !ok {
						continue
					}
					for _, v := range r.Results {
						if call, ok := v.(*ssa.Call); ok && call.Call.StaticCallee() != nil && lookup[call.Call.StaticCallee()] && !nonNilAt(v, b) {
							lookup[f], grown = true, true
						}
					}
				}
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var uses func(f *ssa.Function, v ssa.Value, what string)
	uses = func(f *ssa.Function, v ssa.Value, what string) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if nonNilAt(v, r.Block()) {
				continue
			}
			bad := ""
			switch x := r.(type) {
			case *ssa.FieldAddr, *ssa.Field:
				bad = "takes a field of"
			case *ssa.UnOp:
				if x.Op == token.MUL {
					bad = "reads"
				}
			case *ssa.Phi:
				uses(f, x, what)
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || g.Blocks == nil {
					continue
				}
				for i, a := range x.Common().Args {
					if a == v && i < len(g.Params) {
						uses(g, g.Params[i], what)
					}
				}
			}
			if bad != "" {
				c.Bad("guard", shortFn(f)+": "+what, r.Pos(), "%s what the handle names without having found that it exists", bad)
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || !lookup[call.Call.StaticCallee()] {
					continue
				}
				c.Ob("guard", shortFn(f))
				uses(f, call, call.Call.StaticCallee().Name())
			}
		}
	}
}

// mayMiss says whether f looks a component up and may return nil.
func mayMiss(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 || f.Signature.Params().Len() == 0 {
		return false
	}
	p, ok := rs.At(0).Type().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() != f.Pkg.Pkg {
		return false
	}
	found := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok {
				if m, ok := l.X.Type().Underlying().(*types.Map); ok && types.Identical(m.Elem(), p) {
					found = true
				}
			}
		}
	}
	return found
}

// ---- status

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// statusRule: a callback that answers with a status and calls something that
// may report an error answers with success on no path where it did.
func statusRule(c *Ctx, fns []*ssa.Function, exp map[string]bool) {
	for _, f := range fns {
		rs := f.Signature.Results()
		if !exp[f.Name()] || f.Signature.Recv() != nil || rs.Len() != 1 || kindOf(rs.At(0).Type()) != 'i' ||
			!strings.Contains(rs.At(0).Type().String(), "tresult") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				var e ssa.Value
				if isError(call.Type()) {
					e = call
				} else if t, ok := call.Type().(*types.Tuple); ok && t.Len() > 0 && isError(t.At(t.Len()-1).Type()) {
					for _, r := range *call.Referrers() {
						if x, ok := r.(*ssa.Extract); ok && x.Index == t.Len()-1 {
							e = x
						}
					}
					if e == nil {
						c.Ob("status", shortFn(f))
						c.Bad("status", shortFn(f), call.Pos(), "the error is dropped")
						continue
					}
				} else {
					continue
				}
				c.Ob("status", shortFn(f))
				if where := succeedsAfter(e, call); where != token.NoPos {
					c.Bad("status", shortFn(f), where, "answers with success although %s reported an error", callName(call))
				}
			}
		}
	}
}

func callName(call *ssa.Call) string {
	if call.Call.IsInvoke() {
		return call.Call.Method.Name()
	}
	if g := call.Call.StaticCallee(); g != nil {
		return g.Name()
	}
	return "a call"
}

// succeedsAfter walks from the call, taking of each branch on the error only
// the side where there is one, and returns where a zero is returned.
func succeedsAfter(e ssa.Value, call *ssa.Call) token.Pos {
	type at struct{ b, from *ssa.BasicBlock }
	seen := map[at]bool{}
	var walk func(b, from *ssa.BasicBlock) token.Pos
	walk = func(b, from *ssa.BasicBlock) token.Pos {
		if seen[at{b, from}] {
			return token.NoPos
		}
		seen[at{b, from}] = true
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			v := x.Results[0]
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == b && from != nil {
				for i, p := range b.Preds {
					if p == from {
						v = phi.Edges[i]
					}
				}
			}
			if k, ok := unconv(v).(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
				if x.Pos() != token.NoPos {
					return x.Pos()
				}
				return call.Pos()
			}
			return token.NoPos
		case *ssa.If:
			if bo, ok := x.Cond.(*ssa.BinOp); ok && (bo.X == e || bo.Y == e) && (isNil(bo.X) || isNil(bo.Y)) {
				if bo.Op == token.NEQ {
					return walk(b.Succs[0], b)
				}
				return walk(b.Succs[1], b)
			}
		}
		for _, s := range b.Succs {
			if p := walk(s, b); p != token.NoPos {
				return p
			}
		}
		return token.NoPos
	}
	return walk(call.Block(), nil)
}

func unconv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// ---- view

// viewRule: host memory seen as an array of fixed size and cut to a count the
// host gives panics once the count exceeds the size.
func viewRule(c *Ctx, fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Slice)
				if !ok || s.High == nil {
					continue
				}
				cv, ok := s.X.(*ssa.Convert)
				if !ok {
					continue
				}
				p, ok := cv.Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				a, ok := p.Elem().Underlying().(*types.Array)
				if !ok {
					continue
				}
				c.Ob("view", shortFn(f))
				if _, fixed := unconv(s.High).(*ssa.Const); !fixed && a.Len() < 1<<12 {
					c.Bad("view", shortFn(f)+": "+types.TypeString(a.Elem(), (*types.Package).Name), in.Pos(),
						"a view of %d elements is cut to a count that the host gives", a.Len())
				}
			}
		}
	}
}

// ---- quiet

// quietRule follows the layer's own calls from where the host hands a block
// over.
func quietRule(c *Ctx) {
	loud := map[string]bool{"fmt": true, "log": true, "os": true, "io": true, "time": true, "net": true, "bufio": true, "os/exec": true, "log/slog": true, "runtime/debug": true}
	var work []*ssa.Function
	via := map[*ssa.Function]string{}
	push := func(f *ssa.Function, from string) {
		if f == nil || f.Pkg == nil || f.Blocks == nil {
			return
		}
		if rel := relPkg(f.Pkg.Pkg); rel != hostPkgs[0] && rel != hostPkgs[1] {
			return
		}
		if _, ok := via[f]; !ok {
			via[f] = from + " -> " + opName(f)
			work = append(work, f)
		}
	}
	for _, f := range hostFns(c.W) {
		// A block comes in by GoAudioProcess and goes on to every Process
		// method of the layer that takes what the host passed.
		sig := f.Signature
		if f.Name() == "GoAudioProcess" ||
			f.Name() == "Process" && sig.Recv() != nil && sig.Params().Len() == 1 && sig.Params().At(0).Type().Underlying() == types.Typ[types.UnsafePointer] {
			push(f, "host")
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		c.Ob("quiet", shortFn(f))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					c.Bad("quiet", shortFn(f)+": go", in.Pos(), "a goroutine is started while a block is processed (%s)", via[f])
				case *ssa.Send, *ssa.Select:
					c.Bad("quiet", shortFn(f)+": channel", in.Pos(), "a channel is used while a block is processed (%s)", via[f])
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && strings.HasPrefix(bi.Name(), "print") {
						c.Bad("quiet", shortFn(f)+": "+bi.Name(), in.Pos(), "output while a block is processed (%s)", via[f])
					}
					if g == nil {
						if mc, ok := x.Common().Value.(*ssa.MakeClosure); ok {
							push(mc.Fn.(*ssa.Function), via[f])
						}
						continue
					}
					if g.Pkg != nil && loud[g.Pkg.Pkg.Path()] {
						c.Bad("quiet", shortFn(f)+": "+g.Pkg.Pkg.Name()+"."+g.Name(), in.Pos(), "%s.%s is called while a block is processed (%s)", g.Pkg.Pkg.Name(), g.Name(), via[f])
						continue
					}
					push(g, via[f])
				}
			}
		}
	}
}
