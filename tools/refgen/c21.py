out=['''// Waveshapers, bit crushers, tape and tube saturation.
package zzvsaref

import (
	"math"

	distortion "github.com/justyntemme/vst3go/pkg/dsp/distortion"
)

func zzIn(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }
func zzBlend(wet, dry, mix, out float64) float64 {
	return (wet*zzIn(mix, 0, 1) + dry*(1-zzIn(mix, 0, 1))) * zzIn(out, 0, 2)
}
func zzHard(x float64) float64 {
	if x > 1 {
		return 1
	}
	if x < -1 {
		return -1
	}
	return x
}

// folded at +1 and -1 as often as it takes: the distance in a period of four
// from the middle of a falling ramp
func zzFold(x, t float64) float64 {
	if t <= 0 {
		return 0
	}
	if math.Abs(x) <= t {
		return x
	}
	y := math.Mod(x+t, 4*t)
	if y < 0 {
		y += 4 * t
	}
	if y <= 2*t {
		return y - t
	}
	return 3*t - y
}
func zzSkewed(x, a float64) float64 {
	if x < 0 {
		return math.Tanh(x - a*x)
	}
	return math.Tanh(x + a*x)
}
func zzQuarter(x float64) float64 {
	if math.Abs(x) > 1 {
		return zzHard(x)
	}
	return math.Sin(math.Pi / 2 * x)
}
func zzRise(x float64) float64 {
	if x < 0 {
		if x < -1 {
			return -1
		}
		return math.Exp(3*x) - 1
	}
	if x > 1 {
		return 1
	}
	return 1 - math.Exp(-3*x)
}

// a pole: the way taken towards the signal per sample
type zzPole struct{ at float64 }

func (p *zzPole) step(x, way float64) float64 {
	p.at += (x - p.at) * way
	return p.at
}

// numbers in [0,1): linear congruential generators
type zzDraw64 struct{ at uint64 }

func (d *zzDraw64) next() float64 {
	d.at = d.at*6364136223846793005 + 1442695040888963407
	return float64(d.at>>11) / (1 << 53)
}

type zzDraw32 struct{ at uint32 }

func (d *zzDraw32) next() float64 {
	d.at = d.at*1664525 + 1013904223
	return float64(d.at) / (1 << 32)
}

func zzSteps(x, bits float64) float64 {
	half := math.Pow(2, bits) / 2
	return zzIn(math.Round(x*half)/half, -1, 1)
}

// the tape of one channel
type zzTape struct {
	s, c, f, w     float64
	pre, post, env zzPole
	line           []float64
	turn           float64
	r              *zzDraw32
}

func zzNewTape(s, c, f, w float64) *zzTape {
	return &zzTape{s: zzIn(s, 0, 1), c: zzIn(c, 0, 1), f: zzIn(f, 0, 1), w: zzIn(w, 0, 1), line: make([]float64, 16), r: &zzDraw32{1}}
}
func (t *zzTape) level(x float64) float64 {
	a := math.Abs(x)
	way := 0.1
	if a > t.env.at {
		way = 0.01
	}
	e := t.env.step(a, way)
	if e > 0.5 {
		return x * ((0.5 + (e-0.5)/(2+3*t.c)) / e)
	}
	return x
}
func (t *zzTape) step(x float64) float64 {
	high := x - t.pre.at
	t.pre.step(x, 0.15+0.1*t.w)
	y := t.level(x + 0.3*t.w*high)
	d := y * (1 + 4*t.s)
	y = 0.8*math.Tanh(0.7*d) + 0.2*t.s*(d-0.1*d*d*d)
	y += (2*t.r.next() - 1) * 0.0001 * t.s
	return t.post.step(y, 0.8-0.5*t.w)
}

// the tube of one channel
type zzTube struct {
	w, h, b, y float64
	pre, post  zzPole
	last       float64
	lag        zzPole
}

func (t *zzTube) step(x float64) float64 {
	high := x - t.pre.at
	t.pre.step(x, 0.1+0.4*t.w)
	v := x + 0.5*t.w*high + 0.1*t.b
	way := 1 - 0.5*t.y
	if v > t.last {
		way = 1 - 0.3*t.y
	}
	t.last = v
	v = t.lag.step(v, way)
	return t.post.step(zzTubeCurve(v, t.h), 0.9-0.6*t.w)
}
func zzTubeCurve(v, h float64) float64 {
	even := v - 0.1*v*v + 0.05*v*v*v*v
	if v < 0 {
		even = v + 0.15*v*v - 0.08*v*v*v*v
	}
	odd := v - 0.15*v*v*v + 0.05*v*v*v*v*v
	m := even + (odd-even)*h/2
	if math.Abs(m) <= 0.7 {
		return m
	}
	return math.Copysign(zzSqueeze(math.Abs(m)), m)
}
func zzSqueeze(m float64) float64 {
	from, knee, ratio := 0.7, 0.1, 3.0
	if m < from+knee {
		q := (m - from) / knee
		return from + (m-from)*(1+(1/ratio-1)*q*q)
	}
	return from + (m-from)/ratio
}
''']
def eq(name,params,ret,l,r):
    for side,b in (("Lhs",l),("Rhs",r)):
        out.append(f"func {side}_{name}({params}) {ret} {{\n{b}\n}}\n")

# waveshaper
curves=[("HardClip","zzHard(u)"),("SoftClip","math.Tanh(u)"),("Saturate","math.Atan(math.Pi/2*u) / (math.Pi / 2)"),
 ("Foldback","zzFold(u, 1)"),("Asymmetric","zzSkewed(u, zzIn(a, -1, 1))"),("Sine","zzQuarter(u)"),("Exponential","zzRise(u)")]
for c,e in curves:
    eq(f"shape_{c.lower()}","x, d, a, m, o float64","float64",
f"\tw := distortion.NewWaveshaper()\n\tw.SetCurveType(distortion.Curve{c})\n\tw.SetDrive(d)\n\tw.SetAsymmetry(a)\n\tw.SetMix(m)\n\tw.SetOutput(o)\n\treturn w.Process(x)",
f"\tu := x * zzIn(d, 1, 100)\n\treturn zzBlend({e}, x, m, o)")
    out.append(f"func Rng_bip_shape_{c.lower()}(x, d, a float64) float64 {{\n\tif !(x >= -1 && x <= 1 && d >= 1 && d <= 100 && a >= -1 && a <= 1) {{\n\t\treturn 0\n\t}}\n\tw := distortion.NewWaveshaper()\n\tw.SetCurveType(distortion.Curve{c})\n\tw.SetDrive(d)\n\tw.SetAsymmetry(a)\n\treturn w.Process(x)\n}}\n")
    if c not in ("Asymmetric", "Foldback"):
        eq(f"shape_{c.lower()}_odd","x, d float64","float64",
f"\tif !(x > 0 && x < 100 && d >= 1 && d <= 100) {{\n\t\treturn 0\n\t}}\n\tw := distortion.NewWaveshaper()\n\tw.SetCurveType(distortion.Curve{c})\n\tw.SetDrive(d)\n\treturn w.Process(-x)",
f"\tif !(x > 0 && x < 100 && d >= 1 && d <= 100) {{\n\t\treturn 0\n\t}}\n\tw := distortion.NewWaveshaper()\n\tw.SetCurveType(distortion.Curve{c})\n\tw.SetDrive(d)\n\treturn -w.Process(x)")
eq("shape_foldback_inner","x float64","float64",
"\tif !(x > -1.25 && x < 1.25) {\n\t\treturn 0\n\t}\n\tw := distortion.NewWaveshaper()\n\tw.SetCurveType(distortion.CurveFoldback)\n\tw.SetDrive(2)\n\treturn w.Process(x)",
"\tif !(x > -1.25 && x < 1.25) {\n\t\treturn 0\n\t}\n\tif x > 0.5 {\n\t\treturn 2 - 2*x\n\t}\n\tif x < -0.5 {\n\t\treturn -2 - 2*x\n\t}\n\treturn 2 * x")
eq("shape_new","x float64","float64","\treturn distortion.NewWaveshaper().Process(x)","\treturn math.Tanh(x)")
eq("shape_block","x, y, z, d float64","[3]float64",
"\tw := distortion.NewWaveshaper()\n\tw.SetDrive(d)\n\tb := []float64{x, y, z}\n\tw.ProcessBlock(b, b)\n\treturn [3]float64{b[0], b[1], b[2]}",
"\tw := distortion.NewWaveshaper()\n\tw.SetDrive(d)\n\treturn [3]float64{w.Process(x), w.Process(y), w.Process(z)}")
eq("shape_stereo","x, y, z, v, d float64","[4]float64",
"\tw := distortion.NewWaveshaper()\n\tw.SetDrive(d)\n\tl, r := make([]float64, 2), make([]float64, 2)\n\tw.ProcessStereo([]float64{x, y}, []float64{z, v}, l, r)\n\treturn [4]float64{l[0], l[1], r[0], r[1]}",
"\tw := distortion.NewWaveshaper()\n\tw.SetDrive(d)\n\treturn [4]float64{w.Process(x), w.Process(y), w.Process(z), w.Process(v)}")
eq("shape_fold","x, t float64","float64","\treturn distortion.FoldbackDistortion(x, t)","\treturn zzFold(x, t)")
eq("shape_fold_once","x, t float64","float64",
"\tif !(t > 0 && x > t && x < 3*t) {\n\t\treturn 0\n\t}\n\treturn distortion.FoldbackDistortion(x, t)",
"\tif !(t > 0 && x > t && x < 3*t) {\n\t\treturn 0\n\t}\n\treturn 2*t - x")
eq("shape_sigmoid","x, k float64","float64","\treturn distortion.Sigmoid(x, k)","\treturn zzIn(2/(1+math.Exp(-zzIn(k, 0.1, 10)*x))-1, -0.999999, 0.999999)")
eq("shape_polynomial","x, a, b, c, d float64","float64","\treturn distortion.Polynomial(x, []float64{a, b, c, d})","\treturn ((d*x+c)*x+b)*x + a")
cheb=["1","x","2*x*x - 1","4*x*x*x - 3*x","8*x*x*x*x - 8*x*x + 1","16*x*x*x*x*x - 20*x*x*x + 5*x"]
for i,e in enumerate(cheb):
    eq(f"shape_chebyshev_{i}","x float64","float64",f"\treturn distortion.ChebyshevPolynomial(x, {i})",f"\treturn {e}")
for n in (0,1,2,5):
    eq(f"shape_steps_{n}","x float64","float64",f"\treturn distortion.QuantizeToSteps(x, {n})",
      "\treturn 0" if n<2 else f"\treturn math.Round((x+1)*{(n-1)/2})/{(n-1)/2} - 1")
eq("shape_gate","x, t float64","float64","\treturn distortion.GateEffect(x, t)","\tif x < t && x > -t {\n\t\treturn 0\n\t}\n\treturn x")

# bitcrusher
eq("crush_bits","x, n, m, o float64","float64",
"\tif !(x > -4 && x < 4) {\n\t\treturn 0\n\t}\n\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(n)\n\tb.SetMix(m)\n\tb.SetOutput(o)\n\treturn b.Process(x)",
"\tif !(x > -4 && x < 4) {\n\t\treturn 0\n\t}\n\tif n >= 32 {\n\t\treturn zzBlend(x, x, m, o)\n\t}\n\treturn zzBlend(zzSteps(x, math.Max(1, n)), x, m, o)")
out.append("func Rng_bip_crush_bits(x, n float64) float64 {\n\tif !(x >= -1 && x <= 1 && n >= 1 && n <= 31) {\n\t\treturn 0\n\t}\n\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(n)\n\treturn b.Process(x)\n}\n")
eq("crush_new","x float64","float64","\treturn distortion.NewBitcrusher(48000).Process(x)","\treturn zzSteps(x, 16)")
for nm,red,hold in (("1",1,1),("below",0.5,1),("2",2,2),("3",3,3),("between",2.5,3),("many",100,100)):
    eq(f"crush_hold_{nm}","x, y, z, v, w, u, t float64","[7]float64",
f"\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(32)\n\tb.SetAntiAlias(false)\n\tb.SetSampleRateReduction({red})\n\ta := make([]float64, 7)\n\tb.ProcessBlock([]float64{{x, y, z, v, w, u, t}}, a)\n\treturn [7]float64{{a[0], a[1], a[2], a[3], a[4], a[5], a[6]}}",
"\treturn [7]float64{"+", ".join("xyzvwut"[i//hold*hold] for i in range(7))+"}")
eq("crush_rate_changed","x, y, z, v, w float64","[5]float64",
"\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(32)\n\tb.SetAntiAlias(false)\n\tb.SetSampleRateReduction(4)\n\tp := b.Process(x)\n\tq := b.Process(y)\n\tb.SetSampleRateReduction(3)\n\tr := b.Process(z)\n\ts := b.Process(v)\n\treturn [5]float64{p, q, r, s, b.Process(w)}",
"\treturn [5]float64{x, x, x, v, v}")
eq("crush_reset","x, y, z, v float64","[2]float64",
"\tb := distortion.NewBitcrusher(48000)\n\tb.SetSampleRateReduction(4)\n\tb.SetDither(distortion.DitherWhite)\n\tb.Process(x)\n\tb.Process(y)\n\tb.Reset()\n\tp := b.Process(z)\n\treturn [2]float64{p, b.Process(v)}",
"\tb := distortion.NewBitcrusher(48000)\n\tb.SetSampleRateReduction(4)\n\tb.SetDither(distortion.DitherWhite)\n\tp := b.Process(z)\n\treturn [2]float64{p, b.Process(v)}")
for r in (1.125,1.5,2,4,10):
    eq(f"crush_smooth_{str(r).replace('.','_')}","x, y, z float64","[3]float64",
f"\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(32)\n\tb.SetMix(0.5)\n\tb.SetSampleRateReduction({r})\n\tp := b.Process(x)\n\tq := b.Process(y)\n\treturn [3]float64{{p, q, b.Process(z)}}",
f"""	turn := 2 * math.Pi * (0.45 / {r})
	way := 1.0
	if turn < math.Pi/2 {{
		way = math.Sin(turn) / (math.Sin(turn) + math.Cos(turn))
	}}
	var f zzPole
	in := []float64{{x, y, z}}
	var o [3]float64
	var held float64
	for i := range o {{
		v := f.step(in[i], way)
		if float64(i) >= {r} || i == 0 {{
			held = v
		}}
		o[i] = (held + in[i]) / 2
	}}
	return o""" if r>2 else f"""	turn := 2 * math.Pi * (0.45 / {r})
	way := 1.0
	if turn < math.Pi/2 {{
		way = math.Sin(turn) / (math.Sin(turn) + math.Cos(turn))
	}}
	var f zzPole
	in := []float64{{x, y, z}}
	var o [3]float64
	var held float64
	for i := range o {{
		v := f.step(in[i], way)
		if i%2 == 0 {{
			held = v
		}}
		o[i] = (held + in[i]) / 2
	}}
	return o""")
eq("crush_no_filter","x, y float64","[2]float64",
"\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(32)\n\tb.SetAntiAlias(true)\n\tp := b.Process(x)\n\treturn [2]float64{p, b.Process(y)}",
"\treturn [2]float64{x, y}")
for d,e in (("White","2 * (r.next() - 0.5)"),("Triangular","(r.next() - 0.5 + (r.next() - 0.5))")):
    eq(f"crush_dither_{d.lower()}","x, y float64","[2]float64",
f"\tb := distortion.NewBitcrusher(48000)\n\tb.SetBitDepth(4)\n\tb.SetDither(distortion.Dither{d})\n\tp := b.Process(x)\n\treturn [2]float64{{p, b.Process(y)}}",
f"\tr := &zzDraw64{{88172645463325252}}\n\tu := zzSteps(x+{e}/8, 4)\n\treturn [2]float64{{u, zzSteps(y+{e}/8, 4)}}")
eq("crush_stereo","a, b, c, d, e, f float64","[6]float64",
"\tc0 := distortion.NewBitcrusher(48000)\n\tc0.SetSampleRateReduction(4)\n\tl, r := make([]float64, 3), make([]float64, 3)\n\tc0.ProcessStereo([]float64{a, b, c}, []float64{d, e, f}, l, r)\n\treturn [6]float64{l[0], l[1], l[2], r[0], r[1], r[2]}",
"\tp, q := distortion.NewBitcrusher(48000), distortion.NewBitcrusher(48000)\n\tp.SetSampleRateReduction(4)\n\tq.SetSampleRateReduction(4)\n\tvar o [6]float64\n\to[0], o[1], o[2] = p.Process(a), p.Process(b), p.Process(c)\n\to[3], o[4], o[5] = q.Process(d), q.Process(e), q.Process(f)\n\treturn o")

# tape
setT="\tt.SetSaturation(s)\n\tt.SetCompression(c)\n\tt.SetWarmth(w)\n"
eq("tape_step","x, s, c, w, m, o float64","float64",
"\tt := distortion.NewTapeSaturation(48000)\n"+setT+"\tt.SetMix(m)\n\tt.SetOutput(o)\n\treturn t.Process(x)",
"\treturn zzBlend(zzNewTape(s, c, 0, w).step(x), x, m, o)")
eq("tape_history","x, y, z float64","[3]float64",
"\tt := distortion.NewTapeSaturation(48000)\n\tt.SetSaturation(0.25)\n\tt.SetCompression(0.75)\n\tt.SetWarmth(1)\n\tb := []float64{x, y, z}\n\tt.ProcessBlock(b[:2], b[:2])\n\tt.ProcessBlock(b[2:], b[2:])\n\treturn [3]float64{b[0], b[1], b[2]}",
"\tt := zzNewTape(0.25, 0.75, 0, 1)\n\treturn [3]float64{t.step(x), t.step(y), t.step(z)}")
eq("tape_new","x, y float64","[2]float64",
"\tt := distortion.NewTapeSaturation(48000)\n\tp := t.Process(x)\n\treturn [2]float64{p, t.Process(y)}",
"\tt := zzNewTape(0.5, 0.5, 0, 0.5)\n\treturn [2]float64{t.step(x), t.step(y)}")
eq("tape_reset","x, y, z float64","float64",
"\tt := distortion.NewTapeSaturation(8000)\n\tt.SetFlutter(0.5)\n\tt.Process(x)\n\tt.Process(y)\n\tt.Reset()\n\treturn t.Process(z)",
"\tt := distortion.NewTapeSaturation(8000)\n\tt.SetFlutter(0.5)\n\treturn t.Process(z)")
# saturation 0: no noise, so that the channels of a stereo pair are two tapes
eq("tape_stereo","a, b, c, d float64","[4]float64",
"\tt := distortion.NewTapeSaturation(8000)\n\tt.SetSaturation(0)\n\tl, r := make([]float64, 2), make([]float64, 2)\n\tt.ProcessStereo([]float64{a, b}, []float64{c, d}, l, r)\n\treturn [4]float64{l[0], l[1], r[0], r[1]}",
"\tp, q := zzNewTape(0, 0.5, 0, 0.5), zzNewTape(0, 0.5, 0, 0.5)\n\treturn [4]float64{p.step(a), p.step(b), q.step(c), q.step(d)}")
eq("tape_flutter_silent_channel","a, b, c, d float64","[8]float64",
"\tt := distortion.NewTapeSaturation(8000)\n\tt.SetSaturation(0)\n\tt.SetFlutter(1)\n\tl, r := make([]float64, 8), make([]float64, 8)\n\tt.ProcessStereo([]float64{a, b, c, d, d, c, b, a}, make([]float64, 8), l, r)\n\treturn [8]float64{r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]}",
"\treturn [8]float64{}")
# tube
eq("tube_mix","x, m, o float64","float64",
"\tt := distortion.NewTubeSaturation()\n\tt.SetMix(m)\n\tt.SetOutput(o)\n\treturn t.Process(x)",
"\tt := &zzTube{w: 0.5, h: 0.5, y: 0.1}\n\treturn zzBlend(t.step(x), x, m, o)")
for w in (0, 0.25, 1):
    eq(f"tube_warmth_{str(w).replace('.','_')}","x float64","float64",
f"\tt := distortion.NewTubeSaturation()\n\tt.SetWarmth({w})\n\treturn t.Process(x)",
f"\tt := &zzTube{{w: {w}, h: 0.5, y: 0.1}}\n\treturn t.step(x)")
for b in (-1, 0.5, 1):
    eq(f"tube_bias_{str(b).replace('.','_').replace('-','m')}","x float64","float64",
f"\tt := distortion.NewTubeSaturation()\n\tt.SetBias({b})\n\treturn t.Process(x)",
f"\tt := &zzTube{{w: 0.5, h: 0.5, b: {b}, y: 0.1}}\n\treturn t.step(x)")
eq("tube_lag","x, y float64","float64",
"\tt := distortion.NewTubeSaturation()\n\tt.SetWarmth(0)\n\tt.SetHarmonics(1)\n\tt.SetHysteresis(y)\n\treturn t.Process(x)",
"\tt := &zzTube{h: 1, y: zzIn(y, 0, 1)}\n\treturn t.step(x)")
eq("tube_curve","x, h float64","float64",
"\tif !(x > -2 && x < 2) {\n\t\treturn 0\n\t}\n\tt := distortion.NewTubeSaturation()\n\tt.SetWarmth(0)\n\tt.SetHysteresis(0)\n\tt.SetHarmonics(h)\n\treturn t.Process(x)",
"\tif !(x > -2 && x < 2) {\n\t\treturn 0\n\t}\n\treturn 0.9 * zzTubeCurve(x, zzIn(h, 0, 1))")
eq("tube_new","x float64","float64",
"\treturn distortion.NewTubeSaturation().Process(x)",
"\tt := &zzTube{w: 0.5, h: 0.5, y: 0.1}\n\treturn t.step(x)")
eq("tube_history","x, y float64","[2]float64",
"\tt := distortion.NewTubeSaturation()\n\tt.SetHysteresis(1)\n\tt.SetHarmonics(0)\n\tc := []float64{x, y}\n\tt.ProcessBlock(c, c)\n\treturn [2]float64{c[0], c[1]}",
"\tt := &zzTube{w: 0.5, h: 0, y: 1}\n\treturn [2]float64{t.step(x), t.step(y)}")
eq("tube_reset","x, y, z float64","float64",
"\tt := distortion.NewTubeSaturation()\n\tt.Process(x)\n\tt.Process(y)\n\tt.Reset()\n\treturn t.Process(z)",
"\treturn distortion.NewTubeSaturation().Process(z)")
eq("tube_stereo","a, b, c, d float64","[4]float64",
"\tt := distortion.NewTubeSaturation()\n\tl, r := make([]float64, 2), make([]float64, 2)\n\tt.ProcessStereo([]float64{a, b}, []float64{c, d}, l, r)\n\treturn [4]float64{l[0], l[1], r[0], r[1]}",
"\tp, q := distortion.NewTubeSaturation(), distortion.NewTubeSaturation()\n\treturn [4]float64{p.Process(a), p.Process(b), q.Process(c), q.Process(d)}")
import subprocess
p='/verif/sa/refs/c21_shape.go.txt'
t=subprocess.run(['gofmt'],input="\n".join(out),capture_output=True,text=True)
print(t.stderr)
open(p,'w').write(t.stdout)
