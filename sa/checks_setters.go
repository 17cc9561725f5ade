package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "program equations between sequences of setter calls, decided by value numbering over constructed objects; dependence of processing on each setter's argument", checkC18)
}

// events are operations named like setters that act on the running state
// once, rather than fixing a setting; their order matters by nature.
var events = map[string]string{
	"SetTarget": "starts a ramp from where the value is now", "SetImmediate": "jumps and ends a ramp", "SetValue": "starts a ramp when smoothing",
	"SetPhase": "moves the oscillator", "SetSeed": "restarts a generator", "SetSustainPedal": "releases notes", "SetMaxVoices": "stops voices",
	"(*framework/param.SmoothedParameter).SetSmoothing": "jumps to the target when switched off", "(*framework/voice.Allocator).SetMode": "stops voices",
	"SetBusActive": "switches one bus by index", "SetParameterAtOffset": "queues a change", "SetPlainValue": "same as SetValue",
}

// overlapping settings: the second overwrites all the first did.
var overwrites = map[string][]string{
	"dsp/envelope.ADSR.SetADSR":              {"SetAttack", "SetDecay", "SetSustain", "SetRelease"},
	"dsp/envelope.Detector.SetTimeConstants": {"SetAttack", "SetRelease"},
	"dsp/filter.SVF.SetFrequencyAndQ":        {"SetFrequency", "SetQ"},
}

// designs: types whose setters are alternatives; each overwrites the others.
var designs = map[string]bool{"dsp/filter.Biquad": true}

// orderOK: pairs, or single cells of pairs, that need not commute.
var orderOK = map[string]string{
	"dsp/modulation.Phaser.SetCenterFrequency/SetFrequencyRange": "two ways of giving the sweep range; the last call decides",
	"dsp/modulation.Phaser.SetDepth/SetFrequencyRange":           "two ways of giving the sweep range; the last call decides",
	"dsp/modulation.Tremolo.EnableSmoothing/SetWaveform":         "SetWaveform chooses whether to smooth, EnableSmoothing overrides it",
	"dsp/envelope.Detector.SetMode/SetRMSWindow":                 "either call makes the RMS window, of the same size and empty",
}

// redrawn cells: a random waveform draws again whenever it is selected.
func redrawn(key string) bool {
	return strings.HasSuffix(key, ".randState") || strings.HasSuffix(key, ".currentRandom")
}

// program is a sequence of operations on one object.
type program struct {
	g     *symEng
	st    *sstate
	obj   *Expr
	n     int
	err   string
	enums map[*Expr][]int64
}

// symArgs names the arguments of a call; those of an enumerated type are
// noted to hold one of its constants.
func (p *program) symArgs(f *ssa.Function, tag string) []*Expr {
	var as []*Expr
	for i, q := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			as = append(as, nil)
			continue
		}
		name := fmt.Sprintf("%s_%d", tag, i)
		if k := kindOf(q.Type()); k == 'o' {
			name += "#" + typeKey(q.Type())
		}
		s := sym(name, kindOf(q.Type()))
		if vs := enumValues(q.Type()); vs != nil {
			p.enums[s] = vs
		}
		as = append(as, s)
	}
	return as
}

// enumValues lists the constants declared for a named integer type of the module.
func enumValues(T types.Type) []int64 {
	n, ok := T.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inScope(n.Obj().Pkg().Path()) {
		return nil
	}
	if b, ok := n.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	seen := map[int64]bool{}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), T) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				seen[v] = true
			}
		}
	}
	var out []int64
	for v := range seen {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func newProgram(w *World, ctor *ssa.Function) *program {
	p := &program{g: newSymEng(w), enums: map[*Expr][]int64{}}
	p.g.peel = 4
	r := p.g.runIn(ctor, p.symArgs(ctor, "c"), nil, "new:")
	if r.err != "" || r.ret == nil {
		p.err = "constructor: " + r.err
		return p
	}
	p.st, p.obj = r.st, r.ret
	if p.obj.Op == "struct" && len(p.obj.Args) > 0 {
		p.obj = p.obj.Args[0]
	}
	return p
}

func (p *program) clone() *program {
	q := *p
	if p.st != nil {
		q.st = p.st.clone()
	}
	return &q
}

func (p *program) do(f *ssa.Function, args []*Expr) *Expr {
	if p.err != "" {
		return nil
	}
	p.n++
	a := append([]*Expr{p.obj}, args[1:]...)
	r := p.g.runIn(f, a, p.st, fmt.Sprintf("%d:", p.n))
	if r.err != "" {
		p.err = opName(f) + ": " + r.err
		return nil
	}
	if !r.ok {
		p.err = opName(f) + " does not return"
		return nil
	}
	p.st = r.st
	return r.ret
}

// same compares two programs, taking the facts given for granted.
func (p *program) same(name string, q *program, given facts, skip func(string) bool) eqResult {
	if p.err != "" {
		return eqResult{err: p.err}
	}
	if q.err != "" {
		return eqResult{err: q.err}
	}
	a, b := symResult{st: p.st, ret: p.obj, ok: true}, symResult{st: q.st, ret: q.obj, ok: true}
	return compareRuns(name, a, b, eqOpts{deep: true, enums: p.enums, given: given, scrap: func(k string) bool { return redrawn(k) || skip != nil && skip(k) }})
}

func isSetter(f *ssa.Function) bool {
	if f.Object() == nil || !f.Object().Exported() || len(f.Params) < 2 || events[f.Name()] != "" || events[opName(f)] != "" {
		return false
	}
	n := f.Name()
	if !strings.HasPrefix(n, "Set") && !strings.HasPrefix(n, "Enable") {
		return false
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if f.Signature.Results().At(i).Type().String() != "error" {
			return false
		}
	}
	return true
}

// remade: buffers that a setter makes anew, empty, only when their size changes.
var remade = map[string]string{
	"dsp/dynamics.Compressor.SetLookahead":       "delayBuffer",
	"dsp/dynamics.Limiter.SetLookahead":          "delayBuffer",
	"dsp/envelope.Detector.SetMode":              "rmsWindow",
	"dsp/envelope.Detector.SetRMSWindow":         "rmsWindow",
	"dsp/analysis.SpectrumAnalyzer.SetAveraging": "avgBuffer",
}

// accepted is the condition, on the arguments given alone, under which a
// setter that rejects some values takes this one.
func accepted(before, after *program, args []*Expr) facts {
	if before.err != "" || after.err != "" {
		return nil
	}
	own := func(e *Expr) bool {
		ok := true
		walkExpr(e, map[*Expr]bool{}, func(x *Expr) bool {
			if x.Op == "in" || x.Op == "sym" && strings.HasPrefix(x.Str, "s") && !slices.Contains(args, x) {
				ok = false
			}
			return ok
		})
		return ok
	}
	f := facts{}
	for k, v := range after.st.heap {
		for old := before.st.read(k, v.K); v.Op == "ite" && own(v.Args[0]); {
			if v.Args[1] == old {
				f.add(v.Args[0], false)
				v = v.Args[2]
			} else if v.Args[2] == old {
				f.add(v.Args[0], true)
				v = v.Args[1]
			} else {
				break
			}
		}
	}
	return f
}

func checkC18(c *Ctx) {
	w := c.W
	c.Rule("order", "two settings give the same processor, derived state included, whichever is made first", 290)
	c.Rule("again", "a setting leaves nothing of the value set before", 120)
	c.Rule("overwrite", "a setter of several values, or an alternative design, replaces what the single setters did", 64)
	c.Rule("effect", "each argument of a setter reaches state that processing reads", 120)
	byT := methodsOf(w)
	var Ts []string
	for T := range byT {
		Ts = append(Ts, T)
	}
	sort.Strings(Ts)
	byF := map[*ssa.Function]*opRun{}
	for _, r := range classRuns(w) {
		byF[r.f] = r
	}
	for _, T := range Ts {
		if p := os.Getenv("VSA_T"); p != "" && !strings.Contains(T, p) {
			continue
		}
		if sharedOK["pkg/"+T[:strings.LastIndex(T, ".")]] != "" {
			continue
		}
		var set []*ssa.Function
		for _, f := range byT[T] {
			if isSetter(f) {
				set = append(set, f)
			}
		}
		sort.Slice(set, func(i, j int) bool { return set[i].Name() < set[j].Name() })
		if len(set) == 0 {
			continue
		}
		for _, ct := range ctorsOf(w, T) {
			c.setters(T, ct, set)
		}
		c.setterEffects(T, set, byT[T], byF)
	}
}

func (c *Ctx) setters(T string, ct *ssa.Function, set []*ssa.Function) {
	base := newProgram(c.W, ct)
	sy := map[*ssa.Function][]*Expr{}
	for i, f := range set {
		sy[f] = base.symArgs(f, fmt.Sprintf("s%d", i))
		base.do(f, sy[f])
	}
	want := func(rule, con string, f *ssa.Function, a, b *program, given facts, text string) {
		c.Ob(rule, con)
		r := a.same(con, b, given, func(k string) bool {
			o := remade[T+"."+f.Name()]
			return o != "" && strings.Contains(k, "."+o)
		})
		switch {
		case r.err != "":
			c.Bad(rule, con, f.Pos(), "cannot be decided: %s", r.err)
		case len(r.diffs) > 0:
			c.Bad(rule, con, f.Pos(), "%s: %s can differ", text, strings.Join(r.diffs, ", "))
		}
	}
	from := ""
	if len(ctorsOf(c.W, T)) > 1 {
		from = " after " + ct.Name()
	}
	run := func(b *program, steps ...any) *program {
		p := b.clone()
		for i := 0; i < len(steps); i += 2 {
			p.do(steps[i].(*ssa.Function), steps[i+1].([]*Expr))
		}
		return p
	}
	over := func(a, b *ssa.Function) bool {
		for _, n := range overwrites[T+"."+b.Name()] {
			if n == a.Name() {
				return true
			}
		}
		return designs[T]
	}
	for i, f := range set {
		c.Analysed(opName(f))
		x := base.symArgs(f, "x")
		y := base.symArgs(f, "y")
		want("again", T+"."+f.Name()+from, f, run(base, f, y, f, x), run(base, f, x), accepted(base, run(base, f, x), x), f.Name()+" twice, against once")
		for j, h := range set {
			z := base.symArgs(h, "z")
			pair := T + "." + f.Name() + "/" + h.Name()
			if over(f, h) && i != j {
				want("overwrite", T+"."+h.Name()+" over "+f.Name()+from, h, run(base, f, x, h, z), run(base, h, z), accepted(base, run(base, h, z), z), h.Name()+" after "+f.Name()+", against "+h.Name()+" alone")
				continue
			}
			if j <= i || over(h, f) || orderOK[pair] != "" {
				continue
			}
			want("order", pair+from, f, run(base, f, x, h, z), run(base, h, z, f, x), nil, f.Name()+" then "+h.Name()+", against the other order")
		}
	}
}

// setterEffects: every argument flows into a cell that some processing
// operation reads on the way to a result.
func (c *Ctx) setterEffects(T string, set, ms []*ssa.Function, byF map[*ssa.Function]*opRun) {
	var proc []*ssa.Function
	for _, f := range ms {
		n := f.Name()
		if f.Object() == nil || !f.Object().Exported() || isSetter(f) {
			continue
		}
		// reading a setting back is not processing
		back := false
		for _, s := range set {
			x := strings.TrimPrefix(s.Name(), "Set")
			back = back || n == x || n == "Get"+x || n == "Is"+x
		}
		if !back {
			proc = append(proc, f)
		}
	}
	cf := flowOver(T, proc, byF)
	d := newDepEng()
	for _, f := range set {
		r := byF[f]
		if r == nil || r.res.st == nil {
			c.Bad("effect", T+"."+f.Name(), f.Pos(), "undecided: not evaluated")
			continue
		}
		as := argSyms(f)
		got := map[*Expr]bool{}
		look := func(k *Expr, es ...*Expr) {
			p, ok := cellPath(k, as[0])
			if ok && !cf.live[p] {
				return
			}
			for _, e := range es {
				for l := range d.deps(e) {
					for _, a := range as[1:] {
						if l == a || under(l, a) {
							got[a] = true
						}
					}
				}
			}
		}
		for k, v := range r.res.st.heap {
			look(k, v)
		}
		for _, q := range r.res.st.quants {
			look(q.key, q.val, q.cond)
		}
		for i, a := range as[1:] {
			con := fmt.Sprintf("%s.%s argument %d", T, f.Name(), i+1)
			c.Ob("effect", con)
			if !got[a] {
				c.Bad("effect", con, f.Pos(), "%s does not reach anything that processing reads", f.Params[i+1].Name())
			}
		}
	}
}
