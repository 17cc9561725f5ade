out=['''// Delay lines, interpolation and reverbs.
package zzvsaref

import (
	"math"

	delay "github.com/justyntemme/vst3go/pkg/dsp/delay"
	interp "github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	reverb "github.com/justyntemme/vst3go/pkg/dsp/reverb"
)

// zzPast is what was heard d samples ago at time n, nothing before the start;
// between samples it is on the line through its neighbours
func zzPast(x [6]float32, n int, d float64) float32 {
	lo := int(math.Floor(d))
	f := float32(d - float64(lo))
	a, b := float32(0), float32(0)
	if n-lo >= 0 {
		a = x[n-lo]
	}
	if n-lo-1 >= 0 {
		b = x[n-lo-1]
	}
	return a*(1-f) + b*f
}

func zzRoom(sr float64, ms float64) int { return int(ms * sr / 1000) }
''']
X6="x0, x1, x2, x3, x4, x5 float32"
A6="[6]float32{x0, x1, x2, x3, x4, x5}"
def eq(name, params, ret, l, r):
    out.append(f"func Lhs_{name}({params}) {ret} {{\n{l}\n}}\nfunc Rhs_{name}({params}) {ret} {{\n{r}\n}}\n")
SIX="[6]float32"
names={"1":"one","1.25":"near","2":"two","2.5":"half","3":"three","3.75":"far","4":"full"}
for d,n in names.items():
    eq("line_"+n,X6,SIX,
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = l.Process(x[i], {d})\n\t}}\n\treturn y",
f"\tx := {A6}\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = zzPast(x, i, {d})\n\t}}\n\treturn y")
for d,n,w in (("0","none",1),("-3","before",1),("0.5","short",1),("9","beyond",4),("1e9","far",4),("math.NaN()","nan",1),("math.Inf(1)","inf",4)):
    eq("clamp_"+n,X6,SIX,
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = l.Process(x[i], {d})\n\t}}\n\treturn y",
f"\tx := {A6}\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = zzPast(x, i, {w})\n\t}}\n\treturn y")
eq("line_ms","x0, x1, x2, x3 float32","(float32, float32, float32, float32)",
"\tl := delay.New(0.003, 1000)\n\tvar y [4]float32\n\tfor i, x := range [4]float32{x0, x1, x2, x3} {\n\t\ty[i] = l.ProcessMs(x, 2.5)\n\t}\n\tl.Reset()\n\tl.Write(x0)\n\tl.Write(x1)\n\ty[0] = l.ReadMs(2)\n\treturn y[0], y[1], y[2], y[3]",
"\treturn x0, 0, x0*0.5 + 0*0.5, x1*0.5 + x0*0.5")
eq("line_moving",X6,SIX,
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i, d := range [6]float64{{1, 3, 2, 4, 1.5, 2.25}} {{\n\t\ty[i] = l.Process(x[i], d)\n\t}}\n\treturn y",
f"\tx := {A6}\n\tvar y [6]float32\n\tfor i, d := range [6]float64{{1, 3, 2, 4, 1.5, 2.25}} {{\n\t\ty[i] = zzPast(x, i, d)\n\t}}\n\treturn y")
eq("line_taps",X6,"(float32, float32, float32, float32)",
f"\tl := delay.New(4, 1)\n\tfor _, x := range {A6} {{\n\t\tl.Write(x)\n\t}}\n\ta := l.Tap(1)\n\tb := l.Tap(2)\n\tc := l.Read(5)\n\treturn a, b, c, l.Tap(1)",
"\treturn x5, x4, x1, x5")
eq("line_buffer",X6,"(float32, float32, float32, float32, float32, float32)",
"\tl := delay.New(3, 1)\n\ta, b := []float32{x0, x1, x2, x3}, []float32{x4, x5}\n\tl.ProcessBuffer(a, 3)\n\tl.ProcessBuffer(b, 3)\n\treturn a[0], a[1], a[2], a[3], b[0], b[1]",
"\treturn 0, 0, 0, x0, x1, x2")
eq("line_mix",X6+", mix float32","(float32, float32, float32, float32, float32, float32)",
"\tl := delay.New(3, 1)\n\ta, b := []float32{x0, x1, x2, x3}, []float32{x4, x5}\n\tl.ProcessBufferMix(a, 3, mix)\n\tl.ProcessBufferMix(b, 3, mix)\n\treturn a[0], a[1], a[2], a[3], b[0], b[1]",
"\treturn x0 * (1 - mix), x1 * (1 - mix), x2 * (1 - mix), x3*(1-mix) + x0*mix, x4*(1-mix) + x1*mix, x5*(1-mix) + x2*mix")
eq("line_reset","x0, x1, x2 float32","(float32, float32, float32)",
"\tl := delay.New(3, 1)\n\tl.Write(x0)\n\tl.Write(x1)\n\tl.Reset()\n\tl.Write(x2)\n\treturn l.Read(1), l.Read(2), l.Read(4)",
"\treturn x2, 0, 0")
# comb and allpass
eq("comb_damped",X6+", fb, damp float32",SIX,
f"\tx := {A6}\n\tc := delay.NewComb(3, 1)\n\tc.SetFeedback(fb)\n\tc.SetDamp(damp)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = c.Process(x[i], 2)\n\t}}\n\treturn y",
f"\tx := {A6}\n\tvar y, w [6]float32\n\ts := float32(0)\n\tfor i := 0; i < 6; i++ {{\n\t\tif i >= 2 {{\n\t\t\ty[i] = w[i-2]\n\t\t}}\n\t\ts = y[i]*(1-damp) + s*damp\n\t\tw[i] = x[i] + s*fb\n\t}}\n\treturn y")
eq("comb_undamped",X6+", fb float32",SIX,
f"\tx := {A6}\n\tc := delay.NewComb(3, 1)\n\tc.SetFeedback(fb)\n\tc.SetDamp(0)\n\tb := x[:]\n\tc.ProcessBuffer(b, 2)\n\treturn x",
"\treturn [6]float32{0, 0, x0, x1, x2 + fb*x0, x3 + fb*x1}")
eq("comb_allpass",X6+", fb float32",SIX,
f"\tx := {A6}\n\tc := delay.NewAllpass(3, 1)\n\tc.SetFeedback(fb)\n\tb := x[:]\n\tc.ProcessBuffer(b, 2)\n\treturn x",
"\treturn [6]float32{-x0, -x1, x0 - x2, x1 - x3, x2 + fb*x0 - x4, x3 + fb*x1 - x5}")
eq("comb_plain",X6+", fb float32",SIX,
f"\tx := {A6}\n\tc := delay.NewComb(3, 1)\n\tc.SetFeedback(0)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = c.Process(x[i], 3)\n\t}}\n\treturn y",
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = l.Process(x[i], 3)\n\t}}\n\treturn y")
# multitap
eq("taps_sum",X6+", g1, p1, g2, p2 float32","(float32, float32)",
f"\tm := delay.NewMultiTap(4, 1, 2)\n\tvar l, r float32\n\ttaps := []delay.TapOutput{{{{DelaySamples: 2, Gain: g1, Pan: p1}}, {{DelaySamples: 4, Gain: g2, Pan: p2}}}}\n\tfor _, x := range {A6} {{\n\t\tm.ProcessMultiTap(x, taps, &l, &r)\n\t}}\n\treturn l, r",
f"\tm := delay.New(4, 1)\n\tfor _, x := range {A6} {{\n\t\tm.Write(x)\n\t}}\n\ta, b := m.Tap(2)*g1, m.Tap(4)*g2\n\tc := func(p float32) float32 {{ return float32(math.Cos(float64((p+1)*0.25) * math.Pi)) }}\n\ts := func(p float32) float32 {{ return float32(math.Sin(float64((p+1)*0.25) * math.Pi)) }}\n\treturn a*c(p1) + b*c(p2), a*s(p1) + b*s(p2)")
eq("taps_limit","x0, g1, g2 float32","(float32, float32)",
"\tm := delay.NewMultiTap(4, 1, 1)\n\tvar l, r float32\n\tm.ProcessMultiTap(x0, []delay.TapOutput{{DelaySamples: 1, Gain: g1, Pan: -1}, {DelaySamples: 1, Gain: g2, Pan: -1}}, &l, &r)\n\treturn l, r",
"\treturn x0 * g1, 0")
eq("taps_none","x0 float32","(float32, float32)",
"\tm := delay.NewMultiTap(4, 1, 4)\n\tl, r := float32(1), float32(2)\n\tm.ProcessMultiTap(x0, nil, &l, &r)\n\treturn l, r",
"\treturn 0, 0")
# modulated
eq("mod_still",X6,SIX,
f"\tx := {A6}\n\tm := delay.NewModulated(3, 1)\n\tm.SetLFO(0.25, 0)\n\tm.SetCenterDelay(2500)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = m.Process(x[i])\n\t}}\n\treturn y",
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = l.Process(x[i], 2.5)\n\t}}\n\treturn y")
eq("mod_sweep",X6,SIX,
f"\tx := {A6}\n\tm := delay.NewModulated(3, 1)\n\tm.SetLFO(0.25, 1000)\n\tm.SetCenterDelay(2000)\n\tm.ProcessBuffer(x[:])\n\treturn x",
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i, d := range [6]float64{{2, 3, 2, 1, 2, 3}} {{\n\t\ty[i] = l.Process(x[i], d)\n\t}}\n\treturn y")
eq("mod_fast",X6,SIX,
f"\tx := {A6}\n\tm := delay.NewModulated(3, 1)\n\tm.SetLFO(0.75, 1000)\n\tm.SetCenterDelay(2000)\n\tm.ProcessBuffer(x[:])\n\treturn x",
f"\tx := {A6}\n\tl := delay.New(3, 1)\n\tvar y [6]float32\n\tfor i, d := range [6]float64{{2, 1, 2, 3, 2, 1}} {{\n\t\ty[i] = l.Process(x[i], d)\n\t}}\n\treturn y")
eq("mod_floor","x0, x1, x2 float32","(float32, float32, float32)",
"\tm := delay.NewModulated(3, 1)\n\tm.SetLFO(0, 0)\n\tm.SetCenterDelay(-400)\n\treturn m.Process(x0), m.Process(x1), m.Process(x2)",
"\treturn 0, x0, x1")
# interpolation
eq("interp_linear","a, b, f float32","(float32, float32, float32)",
"\treturn interp.Linear(a, b, 0), interp.Linear(a, b, 1), interp.Linear(a, b, f)",
"\treturn a, b, a*(1-f) + b*f")
for k in ("Cubic","Hermite"):
    eq("interp_"+k.lower()+"_ends","a, b, c, d float32","(float32, float32)",
    f"\treturn interp.{k}(a, b, c, d, 0), interp.{k}(a, b, c, d, 1)","\treturn b, c")
    eq("interp_"+k.lower()+"_parabola","p, q, r, f float32","float32",
    f"\treturn interp.{k}(p-q+r, r, p+q+r, 4*p+2*q+r, f)","\treturn p*f*f + q*f + r")
    eq("interp_"+k.lower()+"_mirror","a, b, c, d, f float32","float32",
    f"\treturn interp.{k}(a, b, c, d, f)",f"\treturn interp.{k}(d, c, b, a, 1-f)")
    eq("interp_"+k.lower()+"_slopes","a, b, c, d float32, f float32","float32",
    f"\treturn interp.{k}(a, b, c, d, f)",
    "\tm0, m1 := (c-a)/2, (d-b)/2\n\tf2, f3 := f*f, f*f*f\n\treturn (2*f3-3*f2+1)*b + (f3-2*f2+f)*m0 + (3*f2-2*f3)*c + (f3-f2)*m1")
eq("interp_allpass","x0, x1, x2, f float32","(float32, float32, float32)",
"\ta := interp.NewAllPass()\n\tr := a.Process(x0, f)\n\ts := a.Process(x1, f)\n\treturn r, s, a.Process(x2, f)",
"\tc := (1 - f) / (1 + f)\n\ty0 := c * x0\n\ty1 := c*x1 + x0 - c*y0\n\treturn y0, y1, c*x2 + x1 - c*y1")
eq("interp_allpass_whole","x0, x1, x2 float32","(float32, float32, float32)",
"\ta := interp.NewAllPass()\n\tr := a.Process(x0, 1)\n\ts := a.Process(x1, 1)\n\treturn r, s, a.Process(x2, 1)",
"\treturn 0, x0, x1")
for k in ("Sinc","Lanczos"):
    eq("interp_"+k.lower()+"_sample","a, b, c, d, e float32","(float32, float32, float32)",
    f"\tx := []float32{{a, b, c, d, e}}\n\treturn interp.{k}(x, 2, 0, 2), interp.{k}(x, 0, 0, 2), interp.{k}(x, 4, 0, 3)",
    "\treturn c, a, e") if k=="Lanczos" else None
eq("interp_lanczos_half","a, b, c, d float32","float32",
"\treturn interp.Lanczos([]float32{a, b, c, d}, 1, 0.5, 2)",
"\tk := func(x float64) float32 {\n\t\treturn float32(math.Sin(math.Pi*x) / (math.Pi * x) * math.Sin(math.Pi*x/2) / (math.Pi * x / 2))\n\t}\n\treturn a*k(-1.5) + b*k(-0.5) + c*k(0.5) + d*k(1.5)")
eq("interp_smooth","c, t, s float32","(float32, float32, float32)",
"\tb := []float32{c, t}\n\tinterp.SmoothBuffer(b, t, s)\n\treturn interp.Smooth(c, t, s), b[0], b[1]",
"\treturn c + s*(t-c), c + s*(t-c), t")
eq("resample_up","a, b, c float32","(int, float32, float32, float32, float32)",
"\ty := make([]float32, 8)\n\tn := interp.Resample([]float32{a, b, c}, 2, y)\n\treturn n, y[0], y[1], y[2], y[3]",
"\treturn 4, a, (a + b) / 2, b, (b + c) / 2")
eq("resample_down","a, b, c, d, e float32","(int, float32, float32, float32)",
"\ty := make([]float32, 8)\n\tn := interp.Resample([]float32{a, b, c, d, e}, 0.5, y)\n\treturn n, y[0], y[1], y[2]",
"\treturn 2, a, c, 0")
eq("resample_full","a, b, c, d float32","(int, float32, float32)",
"\ty := make([]float32, 2)\n\tn := interp.Resample([]float32{a, b, c, d}, 1, y)\n\treturn n, y[0], y[1]",
"\treturn 2, a, b")
eq("resample_cubic","a, b, c, d, e float32","(int, float32, float32, float32, float32, float32, float32)",
"\ty := make([]float32, 9)\n\tn := interp.ResampleCubic([]float32{a, b, c, d, e}, 2, y)\n\treturn n, y[0], y[1], y[2], y[3], y[4], y[5]",
"\treturn 6, a, (a + b) / 2, b, interp.Cubic(a, b, c, d, 0.5), c, interp.Cubic(b, c, d, e, 0.5)")
eq("resample_nothing","a, b, r float32","(int, int, int, int)",
"\ty := make([]float32, 2)\n\tif r > 0 {\n\t\tr = -r\n\t}\n\tif r != r {\n\t\tr = 0\n\t}\n\treturn interp.Resample(nil, 1, y), interp.Resample([]float32{a, b}, 1, nil), interp.Resample([]float32{a, b}, r, y), interp.ResampleCubic([]float32{a, b, a}, 1, y)",
"\treturn 0, 0, 0, 0")
# reverb parts
eq("part_comb",X6+", fb, damp float64",SIX,
f"\tif !(fb >= 0 && fb <= 1) {{\n\t\treturn [6]float32{{}}\n\t}}\n\tx := {A6}\n\tc := reverb.NewCombFilter(2)\n\tc.SetFeedback(fb)\n\tc.SetDamping(damp)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = c.Process(x[i])\n\t}}\n\treturn y",
f"\tif !(fb >= 0 && fb <= 1) {{\n\t\treturn [6]float32{{}}\n\t}}\n\tx := {A6}\n\tvar y, w [6]float32\n\ts := float32(0)\n\tfor i := 0; i < 6; i++ {{\n\t\tif i >= 2 {{\n\t\t\ty[i] = w[i-2]\n\t\t}}\n\t\ts = y[i]*float32(1-damp) + s*float32(damp)\n\t\tw[i] = x[i] + s*float32(fb)\n\t}}\n\treturn y")
eq("part_comb_clamp","x0, x1 float32","(float32, float32, float32)",
"\tc, d := reverb.NewCombFilter(1), reverb.NewCombFilter(1)\n\tc.SetFeedback(7)\n\td.SetFeedback(-7)\n\tc.SetDamping(0)\n\td.SetDamping(0)\n\tc.Process(x0)\n\td.Process(x0)\n\tc.Process(x1)\n\td.Process(x1)\n\treturn c.Process(0), d.Process(0), c.Process(0)",
"\treturn x0 + x1, x1, x0 + x1")
eq("part_allpass",X6+", fb float64",SIX,
f"\tx := {A6}\n\tc := reverb.NewAllPassFilter(2)\n\tc.SetFeedback(fb)\n\tvar y [6]float32\n\tfor i := 0; i < 6; i++ {{\n\t\ty[i] = c.Process(x[i])\n\t}}\n\treturn y",
"\tg := float32(fb)\n\treturn [6]float32{-x0, -x1, x0 - x2, x1 - x3, x2 + g*x0 - x4, x3 + g*x1 - x5}")
eq("part_damping","x0, x1, x2 float32, d float64","(float32, float32, float32)",
"\tif !(d >= 0 && d <= 1) {\n\t\treturn 0, 0, 0\n\t}\n\tf := reverb.NewDampingFilter()\n\tf.SetDamping(d)\n\ta := f.Process(x0)\n\tb := f.Process(x1)\n\treturn a, b, f.Process(x2)",
"\tif !(d >= 0 && d <= 1) {\n\t\treturn 0, 0, 0\n\t}\n\tk := float32(d)\n\ta := x0 - k*x0\n\tb := x1 + k*(a-x1)\n\treturn a, b, x2 + k*(b-x2)")
eq("part_damping_ends","x0, x1 float32","(float32, float32, float32, float32)",
"\tf, g := reverb.NewDampingFilter(), reverb.NewDampingFilter()\n\tf.SetDamping(-2)\n\tg.SetDamping(2)\n\ta, b := f.Process(x0), g.Process(x0)\n\treturn a, b, f.Process(x1), g.Process(x1)",
"\treturn x0, 0, x1, 0")
# schroeder
N=28
def runm(ctor,sets,n,call):
    return f"\tv := {ctor}\n{sets}\tfor i := 0; i < {n}; i++ {{\n\t\tx := float32(0)\n\t\tif i < 2 {{\n\t\t\tx = [2]float32{{x0, x1}}[i]\n\t\t}}\n\t\ty[i] = {call}\n\t}}\n\treturn y"
SCH="""	var y [28]float32
	var c [4]*reverb.CombFilter
	for i, ms := range [4]float64{29.7, 37.1, 41.1, 43.7} {
		c[i] = reverb.NewCombFilter(zzRoom(600, ms))
		c[i].SetFeedback(%s)
		c[i].SetDamping(%s)
	}
	p, q := reverb.NewAllPassFilter(zzRoom(600, 5)), reverb.NewAllPassFilter(zzRoom(600, 1.7))
	p.SetFeedback(0.5)
	q.SetFeedback(0.5)
	for i := 0; i < 28; i++ {
		x := float32(0)
		if i < 2 {
			x = [2]float32{x0, x1}[i]
		}
		w := (c[0].Process(x) + c[1].Process(x) + c[2].Process(x) + c[3].Process(x)) / 4
		y[i] = x*float32(%s) + q.Process(p.Process(w))*float32(%s)
	}
	return y"""
Y28="\tvar y [28]float32\n"
eq("reverb_schroeder","x0, x1 float32, wet, dry float64","[28]float32",
Y28+"\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn y\n\t}\n"+runm("reverb.NewSchroeder(600)","\tv.SetRoomSize(0.5)\n\tv.SetDamping(0.25)\n\tv.SetWetLevel(wet)\n\tv.SetDryLevel(dry)\n",28,"v.Process(x)"),
"\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn [28]float32{}\n\t}\n"+SCH%("0.63","0.25","dry","wet"))
eq("reverb_schroeder_default","x0, x1 float32","[28]float32",
Y28+runm("reverb.NewSchroeder(600)","",28,"v.Process(x)"),SCH%("0.63","0.5","0.7","0.3"))
eq("reverb_schroeder_stereo","l, r float32, wet, dry float64","[28][2]float32",
"\tvar y [28][2]float32\n\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn y\n\t}\n\tv := reverb.NewSchroeder(600)\n\tv.SetWetLevel(wet)\n\tv.SetDryLevel(dry)\n\ty[0][0], y[0][1] = v.ProcessStereo(l, r)\n\tfor i := 1; i < 28; i++ {\n\t\ty[i][0], y[i][1] = v.ProcessStereo(0, 0)\n\t}\n\treturn y",
"\tvar y [28][2]float32\n\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn y\n\t}\n\tv := reverb.NewSchroeder(600)\n\tv.SetWetLevel(1)\n\tv.SetDryLevel(0)\n\tw := v.Process((l + r) * 0.5)\n\ty[0][0], y[0][1] = l*float32(dry)+w*float32(wet), r*float32(dry)+w*float32(wet)\n\tfor i := 1; i < 28; i++ {\n\t\tw := v.Process(0)\n\t\ty[i][0], y[i][1] = w*float32(wet), w*float32(wet)\n\t}\n\treturn y")
# freeverb at 441 Hz
FV="""	var y [26][2]float32
	%s
	var cl, cr [8]*reverb.CombFilter
	var al, ar [4]*reverb.AllPassFilter
	k := 441 / 44100.0
	for i, n := range [8]int{1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617} {
		cl[i], cr[i] = reverb.NewCombFilter(int(float64(n)*k)), reverb.NewCombFilter(int(float64(n+23)*k))
		cl[i].SetFeedback(%s)
		cr[i].SetFeedback(%s)
		cl[i].SetDamping(%s)
		cr[i].SetDamping(%s)
	}
	for i, n := range [4]int{556, 441, 341, 225} {
		al[i], ar[i] = reverb.NewAllPassFilter(int(float64(n)*k)), reverb.NewAllPassFilter(int(float64(n+23)*k))
		al[i].SetFeedback(0.5)
		ar[i].SetFeedback(0.5)
	}
	for i := 0; i < 26; i++ {
		a, b := float32(0), float32(0)
		if i == 0 {
			a, b = l, r
		}
		x := (a + b) * 0.015
		u, v := float32(0), float32(0)
		for j := 0; j < 8; j++ {
			u += cl[j].Process(x)
			v += cr[j].Process(x)
		}
		for j := 0; j < 4; j++ {
			u, v = al[j].Process(u), ar[j].Process(v)
		}
		w1, w2 := float32(%s*(%s/2+0.5)), float32(%s*((1-%s)/2))
		y[i][0], y[i][1] = u*w1+v*w2+a*float32(%s), v*w1+u*w2+b*float32(%s)
	}
	return y"""
G="if !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1 && width >= 0 && width <= 1) {\n\t\treturn y\n\t}"
fvrun="\tvar y [26][2]float32\n\t%s\n\tv := reverb.NewFreeverb(441)\n%s\ty[0][0], y[0][1] = v.ProcessStereo(l, r)\n\tfor i := 1; i < 26; i++ {\n\t\ty[i][0], y[i][1] = v.ProcessStereo(0, 0)\n\t}\n\treturn y"
eq("reverb_freeverb","l, r float32, wet, dry, width float64","[26][2]float32",
fvrun%(G,"\tv.SetRoomSize(0.75)\n\tv.SetDamping(0.25)\n\tv.SetWetLevel(wet)\n\tv.SetDryLevel(dry)\n\tv.SetWidth(width)\n"),
FV%(G,"0.91","0.91","0.25","0.25","wet","width","wet","width","dry","dry"))
eq("reverb_freeverb_default","l, r float32","[26][2]float32",
fvrun%("",""),FV%("","0.84","0.84","0.5","0.5","(1/3.0)","1.0","(1/3.0)","1.0","0.0","0.0"))
eq("reverb_freeverb_mono","x0 float32","(float32, float32)",
"\tv := reverb.NewFreeverb(441)\n\tv.SetDryLevel(0.5)\n\tvar a, b float32\n\tfor i := 0; i < 8; i++ {\n\t\ta, b = b, v.Process(x0)\n\t}\n\treturn a, b",
"\tv := reverb.NewFreeverb(441)\n\tv.SetDryLevel(0.5)\n\tvar a, b float32\n\tfor i := 0; i < 8; i++ {\n\t\tl, _ := v.ProcessStereo(x0, x0)\n\t\ta, b = b, l\n\t}\n\treturn a, b")
eq("reverb_freeze","l, r, z float32","[26][2]float32",
"\tvar y [26][2]float32\n\tv := reverb.NewFreeverb(441)\n\tv.SetWetLevel(1)\n\tv.ProcessStereo(l, r)\n\tv.SetMode(1)\n\tfor i := 1; i < 26; i++ {\n\t\ty[i][0], y[i][1] = v.ProcessStereo(z, -z*2)\n\t}\n\treturn y",
FV.replace("y[i][0], y[i][1] =","w1, w2 = 1, 0\n\t\tif i == 0 {\n\t\t\tcontinue\n\t\t}\n\t\ty[i][0], y[i][1] =")%("","1","1","0","0","1.0","1.0","1.0","1.0","0.0","0.0"))
eq("reverb_thaw","l, r, z float32","[8][2]float32",
"\tvar y [8][2]float32\n\tv := reverb.NewFreeverb(441)\n\tv.SetMode(1)\n\tv.SetMode(0)\n\tfor i := 0; i < 8; i++ {\n\t\ty[i][0], y[i][1] = v.ProcessStereo(l, r)\n\t}\n\treturn y",
"\tvar y [8][2]float32\n\tv := reverb.NewFreeverb(441)\n\tfor i := 0; i < 8; i++ {\n\t\ty[i][0], y[i][1] = v.ProcessStereo(l, r)\n\t}\n\treturn y")
# fdn
def fdn(n,steps,sr):
    base=int(sr*0.01)
    primes=[23,29,31,37,41,43,47,53]
    D=[base*p//23 for p in primes[:n]]
    return D
def fdnref(n,steps,sr,decay,damp,diff):
    D=fdn(n,steps,sr)
    sign="\t\t\ts := float32(1)\n\t\t\tfor b := i & j; b > 0; b &= b - 1 {\n\t\t\t\ts = -s\n\t\t\t}\n"
    return f"""	var y [{steps}]float32
	d := [{n}]int{{{', '.join(map(str,D))}}}
	var w [{n}][{steps}]float32
	var s [{n}]float32
	g := float32(1 / math.Sqrt({n}))
	k := float32(0.4 + 0.58*{decay})
	for t := 0; t < {steps}; t++ {{
		x := float32(0)
		if t < 2 {{
			x = [2]float32{{x0, x1}}[t]
		}}
		var o [{n}]float32
		for i := 0; i < {n}; i++ {{
			if t >= d[i] {{
				o[i] = w[i][t-d[i]]
			}}
		}}
		for i := 0; i < {n}; i++ {{
			in := x*g + k*float32(1-{diff})*o[i]
			for j := 0; j < {n}; j++ {{
				h := g
				for b := i & j; b > 0; b &= b - 1 {{
					h = -h
				}}
				in += o[j] * h * float32({diff}) * k
			}}
			s[i] = in*float32(1-{damp}) + s[i]*float32({damp})
			w[i][t] = s[i]
			y[t] += o[i] * g
		}}
	}}
	return y"""
def fdnlhs(n,steps,sr,decay,damp,diff):
    return f"\tvar y [{steps}]float32\n"+runm(f"reverb.NewFDN({n}, {sr})",f"\tv.SetDecay({decay})\n\tv.SetDamping({damp})\n\tv.SetDiffusion({diff})\n\tv.SetWetLevel(1)\n\tv.SetDryLevel(0)\n",steps,"v.Process(x)")
for n,steps,nm,(dc,dp,df) in ((4,14,"4",("0.5","0.25","0.75")),(4,14,"4_parallel",("1","0","0")),(4,14,"4_mixed",("0.25","0","1")),(8,16,"8",("1","0.25","0.5"))):
    eq("fdn_"+nm,"x0, x1 float32",f"[{steps}]float32",fdnlhs(n,steps,400,dc,dp,df),fdnref(n,steps,400,dc,dp,df))
eq("fdn_wrap","x0, x1 float32","[26]float32",fdnlhs(4,26,200,"1","0","0"),fdnref(4,26,200,"1","0","0"))
eq("fdn_mix","x0 float32, wet, dry float64","(float32, float32)",
"\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn 0, 0\n\t}\n\tv := reverb.NewFDN(4, 200)\n\tv.SetWetLevel(wet)\n\tv.SetDryLevel(dry)\n\tv.Process(x0)\n\tv.Process(0)\n\treturn v.Process(x0), v.Process(0)",
"\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn 0, 0\n\t}\n\tv := reverb.NewFDN(4, 200)\n\tv.SetWetLevel(1)\n\tv.SetDryLevel(0)\n\tv.Process(x0)\n\tv.Process(0)\n\ta := v.Process(x0)\n\treturn x0*float32(dry) + a*float32(wet), v.Process(0) * float32(wet)")
eq("fdn_dry","l, r, z float32, dry float64","(float32, float32, float32)",
"\tif !(dry >= 0 && dry <= 1) {\n\t\treturn 0, 0, 0\n\t}\n\tv := reverb.NewFDN(4, 200)\n\tv.SetWetLevel(0)\n\tv.SetDryLevel(dry)\n\tfor i := 0; i < 4; i++ {\n\t\tv.ProcessStereo(z, z)\n\t}\n\ta, b := v.ProcessStereo(l, r)\n\treturn a, b, v.Process(z)",
"\tif !(dry >= 0 && dry <= 1) {\n\t\treturn 0, 0, 0\n\t}\n\treturn l * float32(dry), r * float32(dry), z * float32(dry)")
eq("fdn_stereo","l, r, z float32, wet, dry float64","(float32, float32)",
"\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn 0, 0\n\t}\n\tv := reverb.NewFDN(4, 200)\n\tv.SetWetLevel(wet)\n\tv.SetDryLevel(dry)\n\tfor i := 0; i < 4; i++ {\n\t\tv.ProcessStereo(z, z)\n\t}\n\treturn v.ProcessStereo(l, r)",
"\tif !(wet >= 0 && wet <= 1 && dry >= 0 && dry <= 1) {\n\t\treturn 0, 0\n\t}\n\tv := reverb.NewFDN(4, 200)\n\tv.SetWetLevel(1)\n\tv.SetDryLevel(0)\n\tfor i := 0; i < 4; i++ {\n\t\tv.ProcessStereo(z, z)\n\t}\n\ta, b := v.ProcessStereo(l, r)\n\treturn l*float32(dry) + a*float32(wet), r*float32(dry) + b*float32(wet)")
eq("reverb_silent","wet float64","[12][3]float32",
"\tvar y [12][3]float32\n\ta, b, c := reverb.NewSchroeder(600), reverb.NewFreeverb(200), reverb.NewFDN(4, 200)\n\tfor i := 0; i < 12; i++ {\n\t\ty[i] = [3]float32{a.Process(0), b.Process(0), c.Process(0)}\n\t}\n\treturn y",
"\treturn [12][3]float32{}")
for T,ctor in (("Freeverb","reverb.NewFreeverb(200)"),("FDN","reverb.NewFDN(4, 200)")):
    for nm,vals in (("SmallRoom",None),("MediumHall",None),("LargeHall",None),("Cathedral",None)):
        pass
import subprocess
p='/verif/sa/refs/c14_delay.go.txt'
t=subprocess.run(['gofmt'],input="\n".join(out),capture_output=True,text=True)
print(t.stderr)
open(p,'w').write(t.stdout)
