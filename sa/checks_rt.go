package main

import (
	"bytes"
	"go/ast"
	"go/token"
	"go/types"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "compiler escape analysis joined with a type-resolved call graph", checkC01)
}

// resizeOps are setters documented to rebuild a buffer or a bank: they are
// called while the plugin is being prepared, not per block.
var resizeOps = map[string]string{
	"(*dsp/dynamics.Compressor).SetLookahead": "resizes the lookahead line",
	"(*dsp/dynamics.Limiter).SetLookahead":    "resizes the lookahead line",
	"(*dsp/envelope.Detector).SetMode":        "creates the RMS window on first use",
	"(*dsp/envelope.Detector).SetType":        "creates the RMS window on first use",
	"(*dsp/envelope.Detector).SetRMSWindow":   "resizes the RMS window",
	"(*dsp/modulation.Chorus).SetVoices":      "rebuilds the voice bank",
	"(*dsp/modulation.Chorus).SetDelay":       "resizes the delay lines",
	"(*dsp/modulation.Chorus).SetDepth":       "resizes the delay lines",
	"(*dsp/modulation.Flanger).SetDelay":      "resizes the delay line",
	"(*dsp/modulation.Flanger).SetDepth":      "resizes the delay line",
	"(*dsp/modulation.Phaser).SetStages":      "rebuilds the stage bank",
	"(*dsp/reverb.FDN).SetDecay":              "rebuilds the feedback matrix",
	"(*dsp/reverb.FDN).SetDamping":            "rebuilds the feedback matrix",
	"(*dsp/reverb.FDN).SetDiffusion":          "rebuilds the feedback matrix",
	"(*dsp/reverb.FDN).SetPresetSmallRoom":    "rebuilds the feedback matrix",
	"(*dsp/reverb.FDN).SetPresetMediumHall":   "rebuilds the feedback matrix",
	"(*dsp/reverb.FDN).SetPresetLargeHall":    "rebuilds the feedback matrix",
	"(*dsp/reverb.FDN).SetPresetCathedral":    "rebuilds the feedback matrix",
	"(*dsp/utility.NoiseGenerator).SetSeed":   "creates a new random source",
}

// skipC01 says why an exported operation is outside "sample and block
// processing"; empty means it is inside.
func skipC01(f *ssa.Function) string {
	if r := resizeOps[shortFn(f)]; r != "" {
		return r
	}
	pkg := relPkg(f.Pkg.Pkg)
	n := f.Name()
	switch {
	case strings.HasPrefix(n, "New"):
		return "constructor"
	case pkg == "pkg/framework/voice" || pkg == "pkg/midi":
		if f.Signature.Recv() != nil {
			return "event-rate, not sample or block processing"
		}
	case pkg == "pkg/framework/param":
		T := ""
		if r := f.Signature.Recv(); r != nil {
			T = namedOf(r.Type()).Obj().Name()
		}
		if T == "Parameter" && (n == "GetValue" || n == "SetValue" || n == "GetPlainValue" || n == "SetPlainValue" || n == "Normalize" || n == "Denormalize") {
			return ""
		}
		if strings.Contains(T, "Smooth") || T == "Registry" && (n == "Get" || n == "GetByIndex" || n == "Count") {
			return ""
		}
		return "parameter construction, text conversion and registration"
	case pkg == "pkg/framework/process":
		if strings.Contains(n, "Event") {
			return "event-rate"
		}
		if strings.HasPrefix(n, "New") {
			return "constructor"
		}
	case pkg == "pkg/dsp/analysis":
		if f.Signature.Recv() == nil || !strings.HasPrefix(n, "Process") {
			return "metering read-out and offline transforms return fresh slices by design"
		}
	}
	return ""
}

// guardedGrowth: a buffer made only when the kept one is too small, and kept.
func guardedGrowth(f *ssa.Function, line int, w *World) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ms, ok := in.(*ssa.MakeSlice)
			if !ok || w.Fset.Position(ms.Pos()).Line != line {
				continue
			}
			if !growsField(ms) {
				return false
			}
			return true
		}
	}
	return false
}

// growsField: every use of the new slice is a store into a field F of an
// object that outlives the call, in a block that runs only when cap(F) or
// len(F) was compared to be too small.
func growsField(ms *ssa.MakeSlice) bool {
	var fa *ssa.FieldAddr
	for _, r := range *ms.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			x, ok := r.Addr.(*ssa.FieldAddr)
			if !ok || freshBase(x.X) {
				return false
			}
			fa = x
		case *ssa.DebugRef, *ssa.Slice:
		default:
			return false
		}
	}
	if fa == nil {
		return false
	}
	for d := ms.Block(); d.Idom() != nil; d = d.Idom() {
		p := d.Idom()
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		// the block must lie on one side only
		if p.Succs[0] != d && p.Succs[1] != d || len(d.Preds) != 1 {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok {
			if sizeOfField(cmp.X, fa) || sizeOfField(cmp.Y, fa) {
				op := cmp.Op
				left := sizeOfField(cmp.X, fa)
				small := left && (op == token.LSS || op == token.LEQ) || !left && (op == token.GTR || op == token.GEQ)
				big := left && (op == token.GEQ || op == token.GTR) || !left && (op == token.LEQ || op == token.LSS)
				if small && p.Succs[0] == d || big && p.Succs[1] == d {
					return true
				}
			}
		}
	}
	return false
}

func sizeOfField(v ssa.Value, fa *ssa.FieldAddr) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "cap" && bi.Name() != "len" {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	x, ok := ld.X.(*ssa.FieldAddr)
	return ok && x.Field == fa.Field && namedOf(x.X.Type()) == namedOf(fa.X.Type())
}

// selfAppend: x.f = append(x.f, ...), a list that keeps its capacity.
func selfAppend(call ssa.Instruction, cc *ssa.CallCommon) bool {
	v, ok := call.(ssa.Value)
	if !ok {
		return false
	}
	src, ok := cc.Args[0].(*ssa.UnOp)
	if !ok {
		return false
	}
	from, ok := src.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			to, ok := r.Addr.(*ssa.FieldAddr)
			if !ok || to.Field != from.Field || namedOf(to.X.Type()) != namedOf(from.X.Type()) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

type escSite struct {
	file      string
	line, col int
	msg       string
}

var escRe = regexp.MustCompile(`^(.+\.go):(\d+):(\d+): (.*)$`)

// escapes asks the repository's own compiler where values are heap-allocated.
func escapes(w *World, tags []string) (sites []escSite, inlined map[string]bool, err error) {
	dirs, err := scopeDirs(w.Dir)
	if err != nil {
		return nil, nil, err
	}
	args := []string{"build", "-gcflags=-m=1"}
	if len(tags) > 0 {
		args = append(args, "-tags="+strings.Join(tags, ","))
	}
	args = append(args, dirs...)
	cmd := exec.Command("/opt/veriftools/go1.24.13/bin/go", args...)
	cmd.Dir = w.Dir
	cmd.Env = goEnv()
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if e := cmd.Run(); e != nil {
		return nil, nil, e
	}
	inlined = map[string]bool{}
	for _, l := range strings.Split(out.String(), "\n") {
		m := escRe.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		msg := m[4]
		if strings.HasPrefix(msg, "inlining call to ") {
			f := m[1]
			if !filepath.IsAbs(f) {
				f = filepath.Join(w.Dir, f)
			}
			inlined[f+":"+m[2]] = true
			continue
		}
		if !strings.Contains(msg, "escapes to heap") && !strings.HasPrefix(msg, "moved to heap") {
			continue
		}
		ln, _ := strconv.Atoi(m[2])
		col, _ := strconv.Atoi(m[3])
		f := m[1]
		if !filepath.IsAbs(f) {
			f = filepath.Join(w.Dir, f)
		}
		sites = append(sites, escSite{f, ln, col, msg})
	}
	return sites, inlined, nil
}

// funcAt finds the innermost source function containing a position.
func (w *World) funcIndex() func(file string, line, col int) *ssa.Function {
	type span struct {
		lo, hi token.Position
		f      *ssa.Function
	}
	idx := map[string][]span{}
	for _, f := range w.Funcs {
		n := f.Syntax()
		if n == nil {
			continue
		}
		switch n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
		default:
			continue
		}
		lo, hi := w.Fset.Position(n.Pos()), w.Fset.Position(n.End())
		idx[lo.Filename] = append(idx[lo.Filename], span{lo, hi, f})
	}
	return func(file string, line, col int) *ssa.Function {
		var best *ssa.Function
		var bs span
		for _, s := range idx[file] {
			after := line > s.lo.Line || line == s.lo.Line && col >= s.lo.Column
			before := line < s.hi.Line || line == s.hi.Line && col <= s.hi.Column
			if after && before && (best == nil || s.lo.Offset > bs.lo.Offset) {
				best, bs = s.f, s
			}
		}
		return best
	}
}

// standard-library packages none of whose functions allocate.
var allocFreePkgs = map[string]bool{"math": true, "math/bits": true, "math/cmplx": true, "sync/atomic": true, "unsafe": true, "time": true, "sync": true}
var allocFreeFuncs = map[string]bool{"sort.Search": true, "math/rand.Float64": true, "(*math/rand.Rand).Float64": true, "math/rand.Int63": true, "math/rand.Float32": true,
	"(*math/rand.Rand).Float32": true, "(*math/rand.Rand).Intn": true, "(*math/rand.Rand).NormFloat64": true, "math/rand.NormFloat64": true}

func checkC01(c *Ctx) {
	c.Rule("heap", "no construct that the compiler places on the heap lies in a function reachable from an audio-thread operation, except a kept buffer that is remade only when too small", 250)
	c.Rule("grow", "no append, map insertion, string building or goroutine on the audio path, except an append that grows a kept list in place", 1)
	c.Rule("extern", "functions outside the module called on the audio path are known not to allocate", 5)
	w := c.W
	m := newAudioModel(w, skipC01)
	sites, inlined, err := escapes(w, nil)
	if err != nil {
		c.BadAt("analysis", "compiler", "-", "escape analysis of the tree failed: %v", err)
		return
	}
	at := w.funcIndex()
	bySite := map[*ssa.Function][]escSite{}
	for _, s := range sites {
		if f := at(s.file, s.line, s.col); f != nil {
			bySite[f] = append(bySite[f], s)
		}
	}
	for _, r := range m.roots {
		c.Ob("heap", shortFn(r))
	}
	// An inlined callee's allocations are reported again at the call; the
	// callee's own body answers for those. Conversely a body's report does not
	// count when every caller inlines it and allocates nothing there.
	lineSites := map[string]bool{}
	for _, s := range sites {
		lineSites[s.file+":"+strconv.Itoa(s.line)] = true
	}
	moduleCallAt := func(f *ssa.Function, line int) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok || w.Fset.Position(in.Pos()).Line != line {
					continue
				}
				if sf := call.Common().StaticCallee(); sf != nil && m.reach[sf] != nil && len(bySite[sf]) > 0 {
					return true
				}
			}
		}
		return false
	}
	isRoot := map[*ssa.Function]bool{}
	for _, r := range m.roots {
		isRoot[r] = true
	}
	neverReal := func(f *ssa.Function) bool {
		n := m.cg.Nodes[f]
		if n == nil || len(n.In) == 0 || isRoot[f] {
			return false
		}
		for _, e := range n.In {
			if e.Site == nil {
				return false
			}
			p := w.Fset.Position(e.Site.Pos())
			k := p.Filename + ":" + strconv.Itoa(p.Line)
			if !inlined[k] || lineSites[k] {
				return false
			}
		}
		return true
	}
	for f := range m.reach {
		c.Analysed(f.String())
		for _, s := range bySite[f] {
			rel, _ := filepath.Rel(w.Dir, s.file)
			if inPanicOnly(w, f, s) || guardedGrowth(f, s.line, w) || moduleCallAt(f, s.line) && !madeOnLine(w, f, s.line) || neverReal(f) {
				continue
			}
			c.BadAt("heap", shortFn(f)+": "+s.msg, rel+":"+strconv.Itoa(s.line), "allocates on the audio path %s", m.path(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					c.Bad("grow", shortFn(f)+": map insertion", x.Pos(), "inserts into a map on the audio path %s", m.path(f))
				case *ssa.BinOp:
					if x.Op == token.ADD {
						if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
							c.Bad("grow", shortFn(f)+": string building", x.Pos(), "builds a string on the audio path %s", m.path(f))
						}
					}
				case *ssa.Go:
					c.Bad("grow", shortFn(f)+": goroutine", x.Pos(), "starts a goroutine on the audio path %s", m.path(f))
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && bi.Name() == "append" && selfAppend(in, cc) {
						c.Ob("grow", shortFn(f)+": append to a kept list")
					} else if ok && bi.Name() == "append" {
						c.Bad("grow", shortFn(f)+": append", in.Pos(), "appends on the audio path %s", m.path(f))
					}
					if sf := cc.StaticCallee(); sf != nil && sf.Pkg != nil && !strings.HasPrefix(sf.Pkg.Pkg.Path(), modPath) {
						n := strings.TrimSuffix(sf.String(), " ")
						c.Ob("extern", n)
						if !allocFreePkgs[sf.Pkg.Pkg.Path()] && !allocFreeFuncs[n] {
							c.Bad("extern", shortFn(f)+" calls "+n, in.Pos(), "%s may allocate, on the audio path %s", n, m.path(f))
						}
					}
				}
			}
		}
	}
	c.Note("audio-thread operations: %d, functions reachable from them: %d, compiler heap sites in the tree: %d", len(m.roots), len(m.reach), len(sites))
}

// madeOnLine: f itself creates something on that line.
func madeOnLine(w *World, f *ssa.Function, line int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure, *ssa.MakeInterface:
				if w.Fset.Position(in.Pos()).Line == line {
					return true
				}
			case *ssa.Alloc:
				if in.(*ssa.Alloc).Heap && w.Fset.Position(in.Pos()).Line == line {
					return true
				}
			}
		}
	}
	return false
}

// inPanicOnly: the value only feeds a panic.
func inPanicOnly(w *World, f *ssa.Function, s escSite) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Panic)
			if !ok {
				continue
			}
			if w.Fset.Position(p.Pos()).Line == s.line {
				return true
			}
		}
	}
	return false
}

// ---- C02 ------------------------------------------------------------------

func init() {
	register("C02", "effect analysis over the call graph (who-may-block)", checkC02)
}

// lockers on the audio path: bounded critical sections, by structure.
var audioLocks = map[string]string{
	"EventQueue": "short list operations on the MIDI queue",
	"Registry":   "read lock for a map lookup; writers exist only at registration",
	"PeakMeter":  "meter shared with the UI", "RMSMeter": "meter shared with the UI", "LUFSMeter": "meter shared with the UI",
	"CorrelationMeter": "meter shared with the UI", "BalanceMeter": "meter shared with the UI", "StereoWidthMeter": "meter shared with the UI",
	"PhaseScope": "meter shared with the UI", "SpectrumAnalyzer": "meter shared with the UI",
}

// packages whose functions never block, sleep or do I/O.
var nonBlockingPkgs = map[string]bool{"math": true, "math/bits": true, "math/cmplx": true, "math/rand": true, "sort": true, "sync/atomic": true, "unsafe": true, "errors": true, "strconv": true, "strings": true, "slices": true, "maps": true}

func skipC02(f *ssa.Function) string {
	if strings.HasPrefix(f.Name(), "New") {
		return "constructor"
	}
	pkg := relPkg(f.Pkg.Pkg)
	if pkg == "pkg/framework/param" {
		if r := f.Signature.Recv(); r != nil {
			switch namedOf(r.Type()).Obj().Name() {
			case "Builder", "RegistryBuilder", "AutoRegistry":
				return "construction and registration"
			}
		} else {
			return "construction and text conversion"
		}
		if f.Name() == "ParseValue" || f.Name() == "FormatValue" {
			return "text conversion"
		}
	}
	return ""
}

func checkC02(c *Ctx) {
	c.Rule("blocking", "no operation that can run on the audio thread reaches a channel operation, a sleep, input/output, logging or another call that can block", 300)
	c.Rule("locks", "the only locks taken on the audio path are the listed short critical sections, and the registry only for reading", 5)
	w := c.W
	m := newAudioModel(w, skipC02)
	for _, r := range m.roots {
		c.Ob("blocking", shortFn(r))
	}
	for f := range m.reach {
		c.Analysed(f.String())
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := func(what string) {
					c.Bad("blocking", shortFn(f)+": "+what, in.Pos(), "%s on the audio path %s", what, m.path(f))
				}
				switch x := in.(type) {
				case *ssa.Send:
					bad("channel send")
				case *ssa.Select:
					bad("select")
				case *ssa.Go:
					bad("goroutine start")
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						bad("channel receive")
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if cc.IsInvoke() {
						if p := cc.Method.Pkg(); p != nil && !strings.HasPrefix(p.Path(), modPath) {
							bad("call of " + p.Path() + "." + cc.Method.Name() + " through an interface")
						}
						continue
					}
					if bi, ok := cc.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						bad("console output")
					}
					sf := cc.StaticCallee()
					if sf == nil || sf.Pkg == nil {
						continue
					}
					p := sf.Pkg.Pkg.Path()
					if strings.HasPrefix(p, modPath) {
						if rel := relPkg(sf.Pkg.Pkg); rel == "pkg/framework/debug" {
							bad("call of the logging and profiling package")
						}
						continue
					}
					if p == "sync" {
						recv := sf.Signature.Recv()
						if recv == nil || !isMutexType(recv.Type()) {
							if recv != nil && namedOf(recv.Type()).Obj().Name() == "Pool" {
								continue
							}
							bad("sync." + sf.Name())
							continue
						}
						owner := "?"
						if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
							if T := namedOf(fa.X.Type()); T != nil {
								owner = T.Obj().Name()
							}
						}
						con := shortFn(f) + ": " + owner + "." + sf.Name()
						c.Ob("locks", con)
						if audioLocks[owner] == "" || owner == "Registry" && strings.HasPrefix(sf.Name(), "Lock") {
							c.Bad("locks", con, in.Pos(), "takes a lock that is not one of the listed short critical sections, on the audio path %s", m.path(f))
						}
						continue
					}
					if p == "fmt" && strings.HasPrefix(sf.Name(), "Sprint") || p == "fmt" && sf.Name() == "Errorf" {
						continue // allocates (C01), does not block
					}
					if p == "time" && (sf.Name() == "Now" || sf.Name() == "Since") {
						continue
					}
					if !nonBlockingPkgs[p] {
						if sf.Signature.Recv() != nil && p == "time" && sf.Name() != "Reset" {
							continue
						}
						bad("call of " + sf.String())
					}
				}
			}
		}
	}
	c.Note("audio-thread operations: %d, functions reachable from them: %d", len(m.roots), len(m.reach))
}
