package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "interprocedural write-effect and retention analysis over access paths", checkC19)
	register("C20", "interprocedural effect and sharing analysis of package-level and per-slot state", checkC20)
}

// outParams: the sample-slice parameters (by position, receiver first) an
// operation is documented to write. Every other sample slice is an input.
// Operations that are not listed write the parameters named as outputs.
var outParams = map[string][]int{
	"(*dsp/delay.AllpassDelay).ProcessBuffer":                {1},
	"(*dsp/delay.CombDelay).ProcessBuffer":                   {1},
	"(*dsp/delay.Line).ProcessBuffer":                        {1},
	"(*dsp/delay.Line).ProcessBufferMix":                     {1},
	"(*dsp/delay.ModulatedDelay).ProcessBuffer":              {1},
	"(*dsp/distortion.Bitcrusher).ProcessBlock":              {2},
	"(*dsp/distortion.Bitcrusher).ProcessStereo":             {3, 4},
	"(*dsp/distortion.TapeSaturation).ProcessBlock":          {2},
	"(*dsp/distortion.TapeSaturation).ProcessStereo":         {3, 4},
	"(*dsp/distortion.TubeSaturation).ProcessBlock":          {2},
	"(*dsp/distortion.TubeSaturation).ProcessStereo":         {3, 4},
	"(*dsp/distortion.Waveshaper).ProcessBlock":              {2},
	"(*dsp/distortion.Waveshaper).ProcessStereo":             {3, 4},
	"(*dsp/dynamics.Compressor).ProcessBuffer":               {2},
	"(*dsp/dynamics.Compressor).ProcessSidechain":            {3},
	"(*dsp/dynamics.Compressor).ProcessStereo":               {3, 4},
	"(*dsp/dynamics.Expander).ProcessBuffer":                 {2},
	"(*dsp/dynamics.Expander).ProcessStereo":                 {3, 4},
	"(*dsp/dynamics.Gate).ProcessBuffer":                     {2},
	"(*dsp/dynamics.Gate).ProcessStereo":                     {3, 4},
	"(*dsp/dynamics.Limiter).ProcessBuffer":                  {2},
	"(*dsp/dynamics.Limiter).ProcessStereo":                  {3, 4},
	"(*dsp/envelope.Detector).Process":                       {2},
	"(*dsp/envelope.Detector).ProcessSidechain":              {3},
	"(*dsp/envelope.Follower).Process":                       {2},
	"(*dsp/modulation.Chorus).ProcessBuffer":                 {2, 3},
	"(*dsp/modulation.Chorus).ProcessStereoBuffer":           {3, 4},
	"(*dsp/modulation.Flanger).ProcessBuffer":                {2},
	"(*dsp/modulation.Flanger).ProcessStereoBuffer":          {3, 4},
	"(*dsp/modulation.Phaser).ProcessBuffer":                 {2},
	"(*dsp/modulation.Phaser).ProcessStereoBuffer":           {3, 4},
	"(*dsp/modulation.RingModulator).ProcessBuffer":          {2},
	"(*dsp/modulation.RingModulator).ProcessStereoBuffer":    {3, 4},
	"(*dsp/modulation.Tremolo).ProcessBuffer":                {2},
	"(*dsp/modulation.Tremolo).ProcessStereoBuffer":          {3, 4},
	"(*dsp/pan.AutoPan).Process":                             {3, 4},
	"dsp.Add":                                                {0},
	"dsp.AddScaled":                                          {0},
	"dsp.Copy":                                               {0},
	"dsp.Mix":                                                {0},
	"dsp.Peak":                                               {},
	"dsp.RMS":                                                {},
	"dsp/analysis.ApplyHannWindow":                           {},
	"dsp/analysis.CrossCorrelation":                          {},
	"dsp/analysis.PowerSpectrum":                             {},
	"dsp/distortion.Polynomial":                              {},
	"dsp/gain.ApplyBufferTo":                                 {2},
	"dsp/interpolation.Lanczos":                              {},
	"dsp/interpolation.Resample":                             {2},
	"dsp/interpolation.ResampleCubic":                        {2},
	"dsp/interpolation.Sinc":                                 {},
	"dsp/mix.Blend":                                          {3},
	"dsp/mix.CrossfadeBuffer":                                {4},
	"dsp/mix.DryWetBuffer":                                   {0},
	"dsp/mix.DryWetBufferTo":                                 {3},
	"dsp/mix.Sum":                                            {1},
	"dsp/mix.SumWeighted":                                    {2},
	"dsp/pan.Balance":                                        {3, 4},
	"dsp/pan.Process":                                        {3, 4},
	"dsp/pan.ProcessStereo":                                  {4, 5},
	"dsp/pan.Width":                                          {3, 4},
	"dsp/debug.CheckAllocation":                              {},
	"dsp/debug.CheckAllocation64":                            {},
	"dsp/debug.VerifyBufferReuse":                            {},
	"framework/debug.AnalyzeBuffer":                          {},
	"framework/debug.CheckAudioBuffer":                       {},
	"framework/debug.CheckBuffer":                            {},
	"framework/debug.CompareBuffers":                         {},
	"framework/debug.DumpBuffer":                             {},
	"framework/debug.LogBufferStats":                         {},
	"framework/debug.PrintBuffer":                            {},
	"(*framework/debug.AudioAnalyzer).Analyze":               {},
	"(*dsp/analysis.FFT).Inverse":                            {},
	"(*dsp/analysis.SpectrumAnalyzer).GetOctaveBands":        {},
	"(*framework/process.Context).ProcessChannelsSeparately": {},
}

var outNames = []string{"out", "dst", "dest", "buffer", "left", "right"}

func isOutParam(f *ssa.Function, i int) bool {
	if f.Signature.Recv() != nil && strings.HasPrefix(relPkg(f.Pkg.Pkg), "pkg/dsp/analysis") {
		return false
	}
	if t, ok := outParams[opName(f)]; ok {
		for _, x := range t {
			if x == i {
				return true
			}
		}
		return false
	}
	n := strings.ToLower(f.Params[i].Name())
	if strings.HasSuffix(n, "in") || strings.HasPrefix(n, "in") {
		return false
	}
	for _, o := range outNames {
		if strings.Contains(n, o) {
			return true
		}
	}
	return false
}

func checkC19(c *Ctx) {
	m := newEffModel(c.W, buildCallGraph(c.W))
	c.Rule("input-written", "no operation writes a sample buffer it takes as input, on any path or through any callee", 75)
	c.Rule("context-input-written", "no operation of the process contexts writes samples of Input, InputBuses or a sidechain", 25)
	c.Rule("samples-retained", "no processing operation keeps a reference to a caller's sample buffer after it returns", 75)
	for _, f := range c.W.Funcs {
		if !exportedOp(f) {
			continue
		}
		pkg := relPkg(f.Pkg.Pkg)
		s := m.sums[f]
		for i, p := range f.Params {
			if !holdsSlice(p.Type()) {
				continue
			}
			c.Analysed(opName(f))
			con := opName(f) + " parameter " + itoa(i)
			root := "p" + itoa(i)
			if !isOutParam(f, i) {
				c.Ob("input-written", con)
				for _, q := range sortedPathsOf(s.writes) {
					if rootOf(q) == root {
						at := s.writes[q]
						via := ""
						if at.via != nil {
							via = " through " + opName(at.via)
						}
						c.Bad("input-written", con, at.pos, "%s writes its input %s%s", opName(f), p.Name(), via)
					}
				}
			}
			if f.Name() == "Put" || strings.HasPrefix(f.Name(), "New") {
				continue // handing a buffer over is what these are for
			}
			c.Ob("samples-retained", con)
			for k, at := range s.retains {
				if rootOf(k[1]) == root && !strings.HasPrefix(k[0], root) {
					c.Bad("samples-retained", con, at.pos, "%s keeps the buffer %s in %s", opName(f), p.Name(), k[0])
				}
			}
		}
		if pkg == "pkg/framework/process" && f.Signature.Recv() != nil {
			c.Ob("context-input-written", opName(f))
			for _, q := range sortedPathsOf(s.writes) {
				if strings.HasPrefix(q, "p0.Input[]") || strings.HasPrefix(q, "p0.InputBuses[]") || strings.HasPrefix(q, "p0.Sidechain[]") {
					c.Bad("context-input-written", opName(f), s.writes[q].pos, "%s writes %s", opName(f), strings.TrimPrefix(q, "p0."))
				}
			}
		}
	}
}

// diagnostic packages keep process-wide state on purpose.
var sharedOK = map[string]string{
	"pkg/dsp/debug":       "process-wide allocation tracking, off in release builds",
	"pkg/framework/debug": "process-wide logger, profiler and analyzer for diagnostics",
}

func checkC20(c *Ctx) {
	m := newEffModel(c.W, buildCallGraph(c.W))
	c.Rule("package-state", "no operation writes memory reachable from a package-level variable", 900)
	c.Rule("package-state-held", "no operation stores or returns a reference into a package-level variable of mutable type", 900)
	c.Rule("shared-slot", "an object made once is not put into several slots (elements, fields) of an instance", 60)
	for _, f := range c.W.Funcs {
		if f.Pkg == nil || sharedOK[relPkg(f.Pkg.Pkg)] != "" {
			continue
		}
		if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
			continue
		}
		s := m.sums[f]
		c.Ob("package-state", opName(f))
		c.Analysed(opName(f))
		for _, q := range sortedPathsOf(s.writes) {
			if q[0] == 'g' && s.writes[q].via == nil && !diagGlobal(q) {
				c.Bad("package-state", opName(f), s.writes[q].pos, "%s writes package-level state %s, which every instance shares", opName(f), q[2:])
			}
		}
		c.Ob("package-state-held", opName(f))
		for k, at := range s.retains {
			if k[1][0] == 'g' && at.via == nil && !diagGlobal(k[1]) {
				c.Bad("package-state-held", opName(f), at.pos, "%s stores a reference to package-level %s in %s", opName(f), k[1][2:], k[0])
			}
		}
		heldGlobals(c, m, f)
		for i, r := range s.rets {
			for p := range r {
				if p[0] == 'g' && !diagGlobal(p) && mutableRef(f.Signature.Results().At(i).Type()) {
					c.Bad("package-state-held", opName(f), f.Pos(), "%s returns a reference to package-level %s", opName(f), p[2:])
				}
			}
		}
		sharedSlots(c, f)
	}
}

// heldGlobals: a pointer, map or object of package level put into an instance.
func heldGlobals(c *Ctx, m *effModel, f *ssa.Function) {
	bad := func(v ssa.Value, pos token.Pos, where string) {
		t := v.Type()
		if _, ok := t.Underlying().(*types.Interface); ok && t.String() != "error" || mutableRef(t) {
			for p := range m.load(f, m.of(f, v)) {
				if p[0] == 'g' && !diagGlobal(p) {
					c.Bad("package-state-held", opName(f), pos, "%s stores a reference to package-level %s in %s", opName(f), p[2:], where)
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch x.Addr.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					bad(x.Val, x.Pos(), "an object ("+slotName(x)+")")
				}
			case *ssa.MapUpdate:
				bad(x.Value, x.Pos(), "a map")
			}
		}
	}
}

func diagGlobal(p effPath) bool {
	for k := range sharedOK {
		if strings.HasPrefix(p[2:], k+".") {
			return true
		}
	}
	return false
}

func mutableRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

// sharedSlots: one allocation stored into several places that are meant to be
// separate: from a loop that does not make it, or at two stores.
func sharedSlots(c *Ctx, f *ssa.Function) {
	_, inner := findLoops(f)
	slotsOf := func(v ssa.Value) []*ssa.Store {
		var out []*ssa.Store
		if v.Referrers() == nil {
			return nil
		}
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Val == v {
				switch st.Addr.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					out = append(out, st)
				}
			}
		}
		return out
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			switch x := in.(type) {
			case *ssa.Alloc:
				if !x.Heap {
					continue
				}
			case *ssa.MakeSlice, *ssa.MakeMap:
			case *ssa.Call:
				callee := x.Call.StaticCallee()
				if callee == nil || callee.Pkg == nil || !strings.HasPrefix(callee.Pkg.Pkg.Path(), modPath) || !mutableRef(x.Type()) || !returnsFresh(callee) {
					continue
				}
			default:
				continue
			}
			if !mutableRef(v.Type()) {
				continue
			}
			slots := slotsOf(v)
			if len(slots) == 0 {
				continue
			}
			con := opName(f) + " " + v.Type().String()
			con = strings.ReplaceAll(con, modPath+"/", "")
			c.Ob("shared-slot", con+" "+slotName(slots[0]))
			for _, st := range slots {
				l := inner[st.Block()]
				for l != nil && !l.blocks[b] {
					if _, isElem := st.Addr.(*ssa.IndexAddr); isElem || !invariantAddr(st.Addr, l) {
						c.Bad("shared-slot", con+" "+slotName(st), st.Pos(), "one %s is stored into a slot in every iteration: the slots share it", v.Type())
					}
					l = l.parent
				}
			}
			for i := 1; i < len(slots); i++ {
				if slotName(slots[i]) != slotName(slots[0]) && !exclusive(slots[0].Block(), slots[i].Block()) {
					c.Bad("shared-slot", con+" "+slotName(slots[i]), slots[i].Pos(), "one %s is stored both in %s and in %s", v.Type(), slotName(slots[0]), slotName(slots[i]))
				}
			}
		}
	}
}

// returnsFresh: every result is a new object made by the function.
func returnsFresh(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				for _, v := range r.Results {
					if _, ok := v.(*ssa.Alloc); ok {
						return true
					}
					if _, ok := v.(*ssa.MakeSlice); ok {
						return true
					}
					if call, ok := v.(*ssa.Call); ok {
						if g := call.Call.StaticCallee(); g != nil && g != f && g.Blocks != nil && returnsFresh(g) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func slotName(st *ssa.Store) string {
	switch a := st.Addr.(type) {
	case *ssa.FieldAddr:
		base := ""
		if ix, ok := a.X.(*ssa.IndexAddr); ok {
			base = "[" + ix.Index.Name() + "]."
			if cst, ok := ix.Index.(*ssa.Const); ok {
				base = "[" + cst.Value.String() + "]."
			}
		}
		return base + structOf(a.X.Type().Underlying().(*types.Pointer).Elem()).Field(a.Field).Name()
	case *ssa.IndexAddr:
		if cst, ok := a.Index.(*ssa.Const); ok {
			return "[" + cst.Value.String() + "]"
		}
		return "[" + a.Index.Name() + "]"
	}
	return "?"
}

func invariantAddr(a ssa.Value, l *sloop) bool {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return invariantAddr(a.X, l)
	case *ssa.IndexAddr:
		return false
	case ssa.Instruction:
		return !l.blocks[a.Block()]
	}
	return true
}

// exclusive: no path runs through both blocks.
func exclusive(a, b *ssa.BasicBlock) bool {
	reach := func(x, y *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(z *ssa.BasicBlock) bool
		dfs = func(z *ssa.BasicBlock) bool {
			if z == y {
				return true
			}
			if seen[z] {
				return false
			}
			seen[z] = true
			for _, s := range z.Succs {
				if dfs(s) {
					return true
				}
			}
			return false
		}
		return dfs(x)
	}
	return a != b && !reach(a, b) && !reach(b, a)
}
