package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// audioPkgs are the packages whose operations run on the audio thread.
var audioPkgs = []string{
	"pkg/dsp", "pkg/dsp/delay", "pkg/dsp/distortion", "pkg/dsp/dynamics", "pkg/dsp/envelope", "pkg/dsp/filter",
	"pkg/dsp/gain", "pkg/dsp/interpolation", "pkg/dsp/mix", "pkg/dsp/modulation", "pkg/dsp/oscillator", "pkg/dsp/pan",
	"pkg/dsp/reverb", "pkg/dsp/utility", "pkg/dsp/analysis", "pkg/framework/dsp", "pkg/framework/process", "pkg/framework/voice",
	"pkg/framework/param", "pkg/midi",
}

// offline: exported operations of those packages that are not audio-thread
// operations. Keyed by name prefix, package path or exact operation.
var offlinePrefix = []string{"New", "Create", "Build", "Must", "Register", "Standard", "Apply", "With", "Builder"}

var offlineOps = map[string]string{
	"Add":          "construction of chains and registries (the MIDI queue's Add is listed back in below)",
	"AddMultiple":  "bulk loading before processing",
	"AddFunc":      "construction of a chain",
	"String":       "text form for people",
	"Reserve":      "registration",
	"Clear":        "registration (queue and buffer clearing is listed back in below)",
	"GetAllEvents": "inspection copy",
	"All":          "inspection copy",
	"FormatValue":  "text form, called from the host's UI thread",
	"ParseValue":   "text form, called from the host's UI thread",
}

func relPkg(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

// shortFn names a function without the module prefix.
func shortFn(f *ssa.Function) string { return opName(f) }

func isAudioPkg(path string) bool {
	for _, a := range audioPkgs {
		if path == a || strings.HasPrefix(path, a+"/") && a != "pkg/dsp" {
			return true
		}
	}
	return strings.HasPrefix(path, "pkg/dsp/") && path != "pkg/dsp/debug"
}

// audioVerb says the name is that of a per-sample or per-block operation.
var audioVerbs = []string{"Process", "Next", "Tick", "Read", "Write", "Tap", "Detect", "Follow", "Generate", "Trigger", "Release",
	"NoteOn", "NoteOff", "Sine", "Saw", "Square", "Pulse", "Triangle", "BLIT", "Sync", "Smooth", "Param", "PassThrough", "CopyInputToOutput",
	"ClearAllOutputs", "AddInputEvent", "AddOutputEvent", "AddParameterChange", "SortParameterChanges", "ApplyParameterChange", "GetParameterChanges", "ClearParameterChanges",
	"WorkBuffer", "TempBuffer", "MonoToStereo", "DryWet", "Crossfade", "Sum", "Blend", "Fade", "Linear", "Cubic", "Hermite", "Sinc", "Lanczos", "Resample", "Peak", "RMS",
	"Clip", "SoftClip", "HardClip", "Scale", "Mix", "Copy", "Width", "Balance", "WhiteNoise", "Sigmoid", "Polynomial", "ChebyshevPolynomial", "QuantizeToSteps", "FoldbackDistortion", "GateEffect",
	"GetValue", "SetValue", "GetPlainValue", "SetPlainValue", "Get", "IsOpen", "IsActive", "IsSmoothing", "DbToLinear", "LinearToDb", "NoteToFrequency", "FrequencyToNote", "NumSamples", "NumInput", "NumOutput",
	"HasParameterChanges", "HasInputEvents", "ClearInput", "ClearOutput", "ClearAll", "RemoveProcessedEvents", "OffsetEvents", "Normalize", "Denormalize", "Set", "Reset", "Enable", "ApplyBuffer", "ApplyDb", "Apply", "Size", "IsEmpty", "Count"}

type audioModel struct {
	w     *World
	cg    *callgraph.Graph
	roots []*ssa.Function
	// reach maps every reachable module function to a root that reaches it
	// and the caller it was first reached from.
	reach  map[*ssa.Function]*ssa.Function
	parent map[*ssa.Function]*ssa.Function
}

func buildCallGraph(w *World) *callgraph.Graph {
	all := ssautil.AllFunctions(w.Prog)
	return vta.CallGraph(all, cha.CallGraph(w.Prog))
}

// audioRoots selects by predicate over exported operations of audio packages.
func audioRoots(w *World, skip func(f *ssa.Function) string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range w.Funcs {
		if f.Parent() != nil || f.Object() == nil || !f.Object().Exported() || f.Pkg == nil {
			continue
		}
		if !isAudioPkg(relPkg(f.Pkg.Pkg)) {
			continue
		}
		verb := false
		for _, v := range audioVerbs {
			if strings.HasPrefix(f.Name(), v) {
				verb = true
			}
		}
		if !verb {
			continue
		}
		if skip(f) != "" {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func newAudioModel(w *World, skip func(f *ssa.Function) string) *audioModel {
	m := &audioModel{w: w, cg: buildCallGraph(w), reach: map[*ssa.Function]*ssa.Function{}, parent: map[*ssa.Function]*ssa.Function{}}
	m.roots = audioRoots(w, skip)
	for _, r := range m.roots {
		m.walk(r, r, nil)
	}
	return m
}

func (m *audioModel) walk(f, root, from *ssa.Function) {
	if f == nil || m.reach[f] != nil {
		return
	}
	if f.Blocks == nil {
		return
	}
	if f.Pkg != nil && !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return
	}
	m.reach[f] = root
	m.parent[f] = from
	n := m.cg.Nodes[f]
	if n != nil {
		for _, e := range n.Out {
			m.walk(e.Callee.Func, root, f)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				m.walk(mc.Fn.(*ssa.Function), root, f)
			}
		}
	}
}

func (m *audioModel) path(f *ssa.Function) string {
	var s []string
	for g := f; g != nil && len(s) < 12; g = m.parent[g] {
		s = append([]string{shortFn(g)}, s...)
	}
	return strings.Join(s, " -> ")
}
