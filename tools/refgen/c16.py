out=['''// Level detectors, compressors, limiters, gates and expanders.
package zzvsaref

import (
	"math"

	dynamics "github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	envelope "github.com/justyntemme/vst3go/pkg/dsp/envelope"
)

func zzAbs(x float32) float64 { return math.Abs(float64(x)) }
func zzMaxOf(x, y float32) float32 { return float32(math.Max(zzAbs(x), zzAbs(y))) }

// the level in dB, -96 for silence
func zzLevel(x float32) float64 {
	if x > 0 {
		return 20 * math.Log10(float64(x))
	}
	return -96
}
func zzBetween(x, y float32) float32 {
	return float32(math.Max(zzAbs(zzMaxOf(x, y)), math.Abs((float64(x)+float64(y))/2)))
}
func zzAbove(level, threshold float64) float64 {
	if level > threshold {
		return level - threshold
	}
	return 0
}
func zzAmp(dB float64) float64 { return math.Pow(10, dB/20) }

// a detector: the way left per sample going up and down, instant jumps onto
// steep peaks, a count of samples to hold
type zzDetector struct {
	up, down, env float64
	jump          bool
	hold, n       int
}

func (d *zzDetector) step(level float64) float32 {
	if level > d.env {
		to := level + (d.env-level)*d.up
		if d.jump && (1-d.up > 0.5 || level > 2*to) {
			to = level
		}
		d.env = to
		d.n = d.hold
	} else if d.n > 0 {
		d.n--
	} else {
		d.env = level + (d.env-level)*d.down
	}
	return float32(d.env)
}

func zzTime(t float64) float64 {
	if t < 0.0001 {
		return 0.0001
	}
	return t
}

// the gain computers, in dB

func zzOver(level, threshold, ratio, knee float64, soft bool) float64 {
	over := level - threshold
	slope := 1 - 1/ratio
	if over > knee/2 {
		return over * slope
	}
	if over < -knee/2 {
		return 0
	}
	p := 1.0
	if soft && knee > 0 {
		p = (over + knee/2) / knee
	}
	return math.Max(0, p*p*over*slope)
}

func zzUnder(level, threshold, ratio, knee, least float64) float64 {
	over := level - threshold
	if over > knee/2 {
		return 0
	}
	if over < -knee/2 {
		return math.Max(least, over*(ratio-1))
	}
	if knee > 0 {
		p := (knee/2 - over) / knee
		return math.Max(least, math.Min(0, p*p*over*(ratio-1)))
	}
	return 0
}

// one smoothed step of a gain towards its target
func zzGlide(gain, to, rising, falling float64) float64 {
	if gain > to {
		return to + (gain-to)*falling
	}
	return to + (gain-to)*rising
}
func zzKept(t, sr float64) float64 {
	if t <= 0 {
		return 0
	}
	return math.Exp(-1 / (t * sr))
}

// a gate
type zzGate struct {
	open, shut    float64 // levels
	closed        float64 // gain
	up, down      float64
	hold, n       int
	at            string
	gain, to      float64
	isOpen        bool
}

func zzNewGate(threshold, hysteresis, least float64, hold int, up, down float64) *zzGate {
	c := zzAmp(least)
	return &zzGate{open: threshold, shut: threshold - hysteresis, closed: c, up: up, down: down, hold: hold, at: "closed", gain: c, to: c}
}

func (g *zzGate) step(level float64) float32 {
	switch g.at {
	case "closed":
		if level > g.open {
			g.at, g.to = "attack", 1
		}
	case "attack":
		if g.gain >= 0.99 {
			g.at, g.isOpen = "open", true
		} else if level < g.shut {
			g.at, g.to = "release", g.closed
		}
	case "open":
		if level < g.shut {
			g.at, g.n = "hold", g.hold
		}
	case "hold":
		if level > g.shut {
			g.at = "open"
		} else if g.n > 0 {
			g.n--
		} else {
			g.at, g.to, g.isOpen = "release", g.closed, false
		}
	case "release":
		if level > g.open {
			g.at, g.to = "attack", 1
		} else if g.gain <= g.to*1.01 {
			g.at = "closed"
		}
	}
	if g.gain != g.to {
		g.gain = zzGlide(g.gain, g.to, g.up, g.down)
	}
	if g.at == "attack" && g.gain >= 0.99 {
		g.at, g.isOpen = "open", true
	} else if g.at == "release" && g.gain <= g.to*1.01 {
		g.at = "closed"
	}
	return float32(g.gain)
}
''']
def eq(name, params, ret, l, r):
    out.append(f"func Lhs_{name}({params}) {ret} {{\n{l}\n}}\nfunc Rhs_{name}({params}) {ret} {{\n{r}\n}}\n")
# ---- detector
KEEP={"Linear":"math.Exp(-1 / (zzTime({t}) * sr))","Logarithmic":"math.Exp(-2.2 / (zzTime({t}) * sr))","Analog":"math.Exp(-1 / (zzTime({t}) * sr))"}
for ty,k in KEEP.items():
    up,down=k.format(t="a"),k.format(t="r")
    jump="false" if ty=="Analog" else "true"
    eq(f"detect_peak_{ty.lower()}","a, r, sr float64, x, y float32","[3]float32",
f"\td := envelope.NewDetector(sr, envelope.ModePeak)\n\td.SetType(envelope.Type{ty})\n\td.SetAttack(a)\n\td.SetRelease(r)\n\tp := d.Detect(x)\n\tq := d.Detect(y)\n\treturn [3]float32{{p, q, d.GetEnvelope()}}",
f"\td := &zzDetector{{up: {up}, down: {down}, jump: {jump}}}\n\tp := d.step(zzAbs(x))\n\tq := d.step(zzAbs(y))\n\treturn [3]float32{{p, q, q}}")
    eq(f"detect_hold_{ty.lower()}","a, r float64, x, y, z float32","[4]float32",
f"\td := envelope.NewDetector(1000, envelope.ModePeakHold)\n\td.SetType(envelope.Type{ty})\n\td.SetTimeConstants(a, r)\n\td.SetHold(0.002)\n\tp := d.Detect(x)\n\tq := d.Detect(0)\n\ts := d.Detect(0)\n\treturn [4]float32{{p, q, s, d.Detect(y)}}",
f"\tsr := 1000.0\n\td := &zzDetector{{up: {up}, down: {down}, jump: {jump}, hold: 2}}\n\tp := d.step(zzAbs(x))\n\tq := d.step(0)\n\ts := d.step(0)\n\treturn [4]float32{{p, q, s, d.step(zzAbs(y))}}")
    eq(f"detect_rms_{ty.lower()}","a, r float64, x, y, z, u float32","[4]float32",
f"\td := envelope.NewDetector(1000, envelope.ModeRMS)\n\td.SetType(envelope.Type{ty})\n\td.SetTimeConstants(a, r)\n\td.SetRMSWindow(2)\n\tp := d.Detect(x)\n\tq := d.Detect(y)\n\ts := d.Detect(z)\n\treturn [4]float32{{p, q, s, d.Detect(u)}}",
f"""	sr := 1000.0
	d := &zzDetector{{up: {up}, down: {down}}}
	var in [5]float64
	in[1], in[2], in[3], in[4] = float64(x), float64(y), float64(z), float64(u)
	var e [4]float32
	for i := range e {{
		e[i] = d.step(math.Sqrt(math.Max(0, in[i+1]*in[i+1]+in[i]*in[i]) / 2))
	}}
	return e""")
eq("detect_rms_default","a, r float64, x float32","[4]float32",
"\td := envelope.NewDetector(1000, envelope.ModePeak)\n\td.SetMode(envelope.ModeRMS)\n\td.SetTimeConstants(a, r)\n\tp := d.Detect(x)\n\tq := d.Detect(x)\n\ts := d.Detect(x)\n\treturn [4]float32{p, q, s, d.Detect(x)}",
"""	d := &zzDetector{up: math.Exp(-1 / (zzTime(a) * 1000)), down: math.Exp(-1 / (zzTime(r) * 1000))}
	s := float64(x) * float64(x)
	p := d.step(math.Sqrt(math.Max(0, s) / 3))
	q := d.step(math.Sqrt(math.Max(0, s+s) / 3))
	t := d.step(math.Sqrt(math.Max(0, s+s+s) / 3))
	return [4]float32{p, q, t, d.step(math.Sqrt(math.Max(0, s+s+s) / 3))}""")
eq("detect_new","sr float64, x, y float32","[2]float32",
"\td := envelope.NewDetector(sr, envelope.ModePeak)\n\tp := d.Detect(x)\n\treturn [2]float32{p, d.Detect(y)}",
"\td := envelope.NewDetector(sr, envelope.ModePeak)\n\td.SetType(envelope.TypeLinear)\n\td.SetTimeConstants(0.001, 0.1)\n\td.SetHold(0.01)\n\tp := d.Detect(x)\n\treturn [2]float32{p, d.Detect(y)}")
eq("detect_sign","d *envelope.Detector, x float32","float32","\treturn d.Detect(-x)","\treturn d.Detect(x)")
eq("detect_block","d *envelope.Detector, x, y float32","[2]float32",
"\tb := make([]float32, 2)\n\td.Process([]float32{x, y}, b)\n\treturn [2]float32{b[0], b[1]}",
"\tp := d.Detect(x)\n\treturn [2]float32{p, d.Detect(y)}")
eq("detect_side","d *envelope.Detector, x, y, s, t float32","[2]float32",
"\tb := make([]float32, 2)\n\td.ProcessSidechain([]float32{x, y}, []float32{s, t}, b)\n\treturn [2]float32{b[0], b[1]}",
"\tp := d.Detect(s)\n\treturn [2]float32{p, d.Detect(t)}")
eq("detect_db","d *envelope.Detector, x float32","float32",
"\td.Detect(x)\n\treturn d.GetEnvelopeDB()","\treturn float32(zzLevel(d.Detect(x)))")
eq("detect_silence","d *envelope.Detector","[2]float32",
"\td.Reset()\n\treturn [2]float32{d.GetEnvelope(), d.GetEnvelopeDB()}","\td.Reset()\n\treturn [2]float32{0, -96}")
eq("detect_again","a, r, x, y, z float64","[2]float32",
"\td := envelope.NewDetector(1000, envelope.ModeRMS)\n\td.SetTimeConstants(a, r)\n\td.Detect(float32(x))\n\td.Reset()\n\tp := d.Detect(float32(y))\n\treturn [2]float32{p, d.Detect(float32(z))}",
"\td := envelope.NewDetector(1000, envelope.ModeRMS)\n\td.SetTimeConstants(a, r)\n\tp := d.Detect(float32(y))\n\treturn [2]float32{p, d.Detect(float32(z))}")
# ---- compressor
CS="\tc := dynamics.NewCompressor(sr)\n\tc.SetThreshold(t)\n\tc.SetRatio(r)\n\tc.SetMakeupGain(m)\n"
DS="\td := envelope.NewDetector(sr, envelope.ModePeak)\n\td.SetType(envelope.TypeLogarithmic)\n"
for kn,arg,soft,w in (("soft","dynamics.KneeSoft, k","true","math.Max(0, k)"),("hard","dynamics.KneeHard, k","false","math.Max(0, k)"),("none","dynamics.KneeSoft, 0","true","0.0")):
    eq(f"compress_{kn}","sr, t, r, m, k float64, x float32","(float32, float64)",
CS+f"\tc.SetKnee({arg})\n\ty := c.Process(x)\n\treturn y, c.GetGainReduction()",
DS+f"\td.SetTimeConstants(0.005, 0.05)\n\tg := zzOver(zzLevel(d.Detect(x)), t, math.Max(1, r), {w}, {soft})\n\treturn x * float32(zzAmp(m-g)), g")
eq("compress_times","sr, t, a, b float64, x, y float32","[2]float32",
"\tc := dynamics.NewCompressor(sr)\n\tc.SetThreshold(t)\n\tc.SetKnee(dynamics.KneeHard, 0)\n\tc.SetAttack(a)\n\tc.SetRelease(b)\n\tp := c.Process(x)\n\treturn [2]float32{p, c.Process(y)}",
DS+"\td.SetTimeConstants(math.Max(0.0001, a), math.Max(0.001, b))\n\tp := zzOver(zzLevel(d.Detect(x)), t, 4, 0, false)\n\tq := zzOver(zzLevel(d.Detect(y)), t, 4, 0, false)\n\treturn [2]float32{x * float32(zzAmp(-p)), y * float32(zzAmp(-q))}")
eq("compress_new","sr float64, x float32","float32",
"\treturn dynamics.NewCompressor(sr).Process(x)",
"\tc := dynamics.NewCompressor(sr)\n\tc.SetThreshold(-20)\n\tc.SetRatio(4)\n\tc.SetKnee(dynamics.KneeSoft, 2)\n\tc.SetAttack(0.005)\n\tc.SetRelease(0.05)\n\tc.SetMakeupGain(0)\n\treturn c.Process(x)")
eq("compress_unity","sr, t, m float64, x, y float32","[2]float32",
"\tc := dynamics.NewCompressor(sr)\n\tc.SetThreshold(t)\n\tc.SetRatio(1)\n\tc.SetMakeupGain(m)\n\tp := c.Process(x)\n\treturn [2]float32{p, c.Process(y)}",
"\treturn [2]float32{x * float32(zzAmp(m)), y * float32(zzAmp(m))}")
eq("compress_meter_same","t, r float64, x, y float32","float64",
"\tc := dynamics.NewCompressor(1000)\n\tc.SetThreshold(t)\n\tc.SetRatio(r)\n\tc.SetLookahead(0.002)\n\tc.Process(x)\n\tc.Process(y)\n\treturn c.GetGainReduction()",
"\tc := dynamics.NewCompressor(1000)\n\tc.SetThreshold(t)\n\tc.SetRatio(r)\n\tc.Process(-x)\n\tc.Process(-y)\n\treturn c.GetGainReduction()")
eq("compress_lookahead","x, y, z, u float32","[4]float32",
"\tc := dynamics.NewCompressor(1000)\n\tc.SetLookahead(0.002)\n\tp := c.Process(x)\n\tq := c.Process(y)\n\ts := c.Process(z)\n\treturn [4]float32{p, q, s, c.Process(u)}",
"""	c := dynamics.NewCompressor(1000)
	c.Process(x)
	c.Process(y)
	c.Process(z)
	p := float32(zzAmp(-c.GetGainReduction()))
	c.Process(u)
	return [4]float32{0, 0, x * p, y * float32(zzAmp(-c.GetGainReduction()))}""")
eq("compress_lookahead_most","x float32","[11]float32",
"\tc := dynamics.NewCompressor(1000)\n\tc.SetRatio(1)\n\tc.SetLookahead(1)\n\tvar y [11]float32\n\ty[0] = c.Process(x)\n\tfor i := 1; i < 11; i++ {\n\t\ty[i] = c.Process(0)\n\t}\n\treturn y",
"\treturn [11]float32{10: x}")
eq("compress_lookahead_off","x, y float32","[2]float32",
"\tc := dynamics.NewCompressor(1000)\n\tc.SetLookahead(0.002)\n\tc.Process(x)\n\tc.Reset()\n\tc.SetLookahead(0)\n\tp := c.Process(x)\n\treturn [2]float32{p, c.Process(y)}",
"\tc := dynamics.NewCompressor(1000)\n\tp := c.Process(x)\n\treturn [2]float32{p, c.Process(y)}")
# linked stereo and sidechain, no lookahead
def linked(pkg,new,setup,tag,wrap=lambda s:s):
    eq(f"linked_{tag}","sr, t float64, x, y, u, v float32","[5]float64",
f"\tp := dynamics.{new}({pkg or "sr"})\n{setup}\ta, b := make([]float32, 2), make([]float32, 2)\n\tp.ProcessStereo([]float32{{x, u}}, []float32{{y, v}}, a, b)\n\treturn [5]float64{{float64(a[0]), float64(b[0]), float64(a[1]), float64(b[1]), p.GetGainReduction()}}",
f"""	p := dynamics.{new}({pkg or "sr"})
{setup}	one := zzMaxOf(x, y)
	two := zzMaxOf(u, v)
	if !(one > 0 && two > 0) {{
		p := dynamics.{new}({pkg or "sr"})
{setup}		a, b := make([]float32, 2), make([]float32, 2)
		p.ProcessStereo([]float32{{x, u}}, []float32{{y, v}}, a, b)
		return [5]float64{{float64(a[0]), float64(b[0]), float64(a[1]), float64(b[1]), p.GetGainReduction()}}
	}}
	g := p.Process(one) / one
	h := p.Process(two) / two
	return [5]float64{{float64(x * g), float64(y * g), float64(u * h), float64(v * h), p.GetGainReduction()}}""")
linked("","NewCompressor","\tp.SetThreshold(t)\n\tp.SetKnee(dynamics.KneeHard, 0)\n","compressor")
linked("","NewExpander","\tp.SetThreshold(t)\n\tp.SetKnee(0)\n\tp.SetAttack(0)\n\tp.SetRelease(0)\n","expander")
linked("44100","NewLimiter","\tp.SetThreshold(t)\n\tp.SetLookahead(0)\n\tp.SetTruePeak(false)\n","limiter")
linked("","NewGate","\tp.SetThreshold(t)\n\tp.SetAttack(0)\n\tp.SetRelease(0)\n\tp.SetHold(0)\n","gate")
eq("linked_side","sr, t float64, x, s float32","(float32, float64)",
"\tc := dynamics.NewCompressor(sr)\n\tc.SetThreshold(t)\n\tb := make([]float32, 1)\n\tc.ProcessSidechain([]float32{x}, []float32{s}, b)\n\treturn b[0], c.GetGainReduction()",
"\tc := dynamics.NewCompressor(sr)\n\tc.SetThreshold(t)\n\tc.Process(s)\n\tg := c.GetGainReduction()\n\treturn x * float32(zzAmp(-g)), g")
# ---- limiter
LD="\td := envelope.NewDetector(44100, envelope.ModePeak)\n"
eq("limit_level","t, r float64, x, y float32","[3]float64",
"\tl := dynamics.NewLimiter(44100)\n\tl.SetLookahead(0)\n\tl.SetTruePeak(false)\n\tl.SetThreshold(t)\n\tl.SetRelease(r)\n\tp := l.Process(x)\n\tq := l.Process(y)\n\treturn [3]float64{float64(p), float64(q), l.GetGainReduction()}",
LD+"""	d.SetTimeConstants(0.0001, math.Max(0.001, r))
	t = math.Min(0, t)
	over := func(x float32) float64 {
		return math.Max(0, zzLevel(float32(math.Max(float64(d.Detect(x)), zzAbs(x))))-t)
	}
	g := over(x)
	h := over(y)
	return [3]float64{float64(x) * zzAmp(-g), float64(y) * zzAmp(-h), h}""")
eq("limit_peak","t float64, x, y float32","[2]float32",
"\tl := dynamics.NewLimiter(44100)\n\tl.SetLookahead(0)\n\tl.SetThreshold(t)\n\tp := l.Process(x)\n\treturn [2]float32{p, l.Process(y)}",
LD+"""	d.SetTimeConstants(0.0001, 0.05)
	t = math.Min(0, t)
	over := func(before, x float32) float64 {
		peak := float32(math.Max(zzAbs(zzMaxOf(before, x)), math.Abs((float64(before)+float64(x))/2)))
		return math.Max(0, zzLevel(float32(math.Max(float64(d.Detect(peak)), zzAbs(x))))-t)
	}
	g := over(0, x)
	h := over(x, y)
	return [2]float32{x * float32(zzAmp(-g)), y * float32(zzAmp(-h))}""")
eq("limit_peak_past","t float64, x, y float32","float32",
"\tl := dynamics.NewLimiter(44100)\n\tl.SetLookahead(0)\n\tl.SetThreshold(t)\n\tl.Process(x)\n\tl.Process(0)\n\treturn l.Process(y)",
LD+"""	d.SetTimeConstants(0.0001, 0.05)
	t = math.Min(0, t)
	d.Detect(zzBetween(0, x))
	d.Detect(zzBetween(x, 0))
	e := float32(math.Max(float64(d.Detect(zzBetween(0, y))), zzAbs(y)))
	return y * float32(zzAmp(-zzAbove(zzLevel(e), t)))""")
eq("limit_ceiling","t float64, x, y float32","float32",
"\tif !(x > 0) {\n\t\treturn 0\n\t}\n\tl := dynamics.NewLimiter(44100)\n\tl.SetLookahead(0)\n\tl.SetTruePeak(false)\n\tl.SetThreshold(t)\n\tl.Process(y)\n\treturn l.Process(x)",
"""	if !(x > 0) {
		return 0
	}
"""+LD+"""	d.SetTimeConstants(0.0001, 0.05)
	d.Detect(y)
	e := float32(math.Max(float64(d.Detect(x)), zzAbs(x)))
	c := zzAmp(math.Min(0, t))
	if zzLevel(e) > math.Min(0, t) {
		return x * float32(c/float64(e))
	}
	return x""")
eq("limit_lookahead","t float64, x, y, z float32","[3]float32",
"\tl := dynamics.NewLimiter(1000)\n\tl.SetLookahead(0.002)\n\tl.SetTruePeak(false)\n\tl.SetThreshold(t)\n\tp := l.Process(x)\n\tq := l.Process(y)\n\treturn [3]float32{p, q, l.Process(z)}",
"""	d := envelope.NewDetector(1000, envelope.ModePeak)
	d.SetTimeConstants(0.0001, 0.05)
	d.Detect(x)
	d.Detect(y)
	e := float32(math.Max(float64(d.Detect(z)), zzAbs(x)))
	return [3]float32{0, 0, x * float32(zzAmp(-math.Max(0, zzLevel(e)-math.Min(0, t))))}""")
eq("limit_lookahead_default","","[6]float32",
"\tl := dynamics.NewLimiter(1000)\n\tvar y [6]float32\n\ty[0] = l.Process(0.5)\n\tfor i := 1; i < 6; i++ {\n\t\ty[i] = l.Process(0)\n\t}\n\treturn y",
"\treturn [6]float32{5: 0.5}")
eq("limit_lookahead_most","","[11]float32",
"\tl := dynamics.NewLimiter(1000)\n\tl.SetLookahead(1)\n\tvar y [11]float32\n\ty[0] = l.Process(0.5)\n\tfor i := 1; i < 11; i++ {\n\t\ty[i] = l.Process(0)\n\t}\n\treturn y",
"\treturn [11]float32{10: 0.5}")
# ---- gate
GN="\tg := dynamics.NewGate(1000)\n"
def gate(name, att, rel, hold, seq, syms):
    n=seq.count(",")+1
    eq(f"gate_{name}",f"{syms} float32" if syms else "",f"([{n}]float32, [{n}]string, [{n}]bool, float64)",
f"""	g := dynamics.NewGate(1000)
	g.SetThreshold(-20)
	g.SetHysteresis(6)
	g.SetRange(-40)
	g.SetAttack({att})
	g.SetRelease({rel})
	g.SetHold({hold*0.001})
	var o [{n}]float32
	var s [{n}]string
	var b [{n}]bool
	for i, x := range [{n}]float32{{{seq}}} {{
		o[i] = g.Process(x)
		s[i] = g.GetState()
		b[i] = g.IsOpen()
	}}
	return o, s, b, g.GetGainReduction()""",
f"""	g := zzNewGate(-20, 6, -40, {hold}, zzKept({att}, 1000), zzKept({rel}, 1000))
	var o [{n}]float32
	var s [{n}]string
	var b [{n}]bool
	for i, x := range [{n}]float32{{{seq}}} {{
		o[i] = x * g.step(zzLevel(float32(zzAbs(x))))
		s[i] = g.at
		b[i] = g.isOpen
	}}
	r := 20 * math.Log10(g.gain)
	if r > -0.1 {{
		r = 0
	}}
	return o, s, b, r""")
for n,att,rel in (("fast",0,0),("attack",0.002,0),("release",0,0.002),("slow",0.001,0.0015)):
    gate(f"{n}_free",att,rel,1,"x, y, z","x, y, z")
    gate(f"{n}_opens",att,rel,1,"1, 1, 1, x, 1, y, 0.1, 1","x, y")
    gate(f"{n}_shuts",att,rel,1,"1, 1, 1, 1, 1, 0, 0, 0, x, 0, y","x, y")
    gate(f"{n}_long",att,rel,3,"1, 1, 1, 1, 1, 1, 0, x, 0, 0, 0, 0, 0, 0, 0, 1, 0","x")
eq("gate_levels","t, h, l float64, x float32","(float32, string, string)",
"\tg := dynamics.NewGate(1000)\n\tg.SetThreshold(t)\n\tg.SetHysteresis(h)\n\tg.SetRange(l)\n\tg.SetAttack(0)\n\tg.SetRelease(0)\n\tg.SetHold(0)\n\ty := g.Process(x)\n\ts := g.GetState()\n\tg.Process(x / 2)\n\treturn y, s, g.GetState()",
"\tg := zzNewGate(t, math.Max(0, h), math.Min(0, l), 0, 0, 0)\n\ty := x * g.step(zzLevel(float32(zzAbs(x))))\n\ts := g.at\n\tg.step(zzLevel(float32(zzAbs(x / 2))))\n\treturn y, s, g.at")
eq("gate_attack","a, sr float64","float32",
"\tif !(a > 0.0001 && a < 100 && sr > 1000 && sr < 1e6) {\n\t\treturn 0\n\t}\n\tg := dynamics.NewGate(sr)\n\tg.SetRange(-40)\n\tg.SetAttack(a)\n\treturn g.Process(1)",
"\tif !(a > 0.0001 && a < 100 && sr > 1000 && sr < 1e6) {\n\t\treturn 0\n\t}\n\treturn float32(1 + (zzAmp(-40)-1)*math.Exp(-1/(a*sr)))")
eq("gate_release","r float64","float32",
"\tif !(r > 0.0001 && r < 100 && true) {\n\t\treturn 0\n\t}\n\tg := dynamics.NewGate(1000)\n\tg.SetRange(-40)\n\tg.SetAttack(0)\n\tg.SetRelease(r)\n\tg.SetHold(0)\n\tg.Process(1)\n\tg.Process(0.0009765625)\n\treturn g.Process(0.0009765625)",
"\tif !(r > 0.0001 && r < 100 && true) {\n\t\treturn 0\n\t}\n\tc := zzAmp(-40)\n\treturn 0.0009765625 * float32((c + (1-c)*math.Exp(-1/(r*1000))))")
eq("gate_hold","x float32","[8]string",
GN+"""	g.SetAttack(0)
	g.SetRelease(0)
	g.SetHold(0.003)
	g.Process(1)
	var s [8]string
	for i := range s {
		g.Process(0)
		s[i] = g.GetState()
	}
	return s""",
"""	return [8]string{"hold", "hold", "hold", "hold", "closed", "closed", "closed", "closed"}""")
eq("gate_keeps","x, t, h float64, y float32","string",
"""	if !(x > 0 && t < 0 && h > 0 && y > 0) {
		return ""
	}
	level := 20 * math.Log10(float64(y))
	if !(level > t-h && level < t) {
		return ""
	}
"""+GN+"\tg.SetThreshold(t)\n\tg.SetHysteresis(h)\n\tg.SetAttack(0)\n\tg.Process(1)\n\tg.Process(y)\n\treturn g.GetState()",
"""	if !(x > 0 && t < 0 && h > 0 && y > 0) {
		return ""
	}
	level := 20 * math.Log10(float64(y))
	if !(level > t-h && level < t) {
		return ""
	}
	return "open\"""")
eq("gate_stays","t, l float64, x float32","(float32, string, bool, float64)",
"""	g := dynamics.NewGate(1000)
	g.SetThreshold(t)
	g.SetRange(l)
	if zzLevel(float32(zzAbs(x))) > t {
		return 0, "", false, 0
	}
	r := g.GetGainReduction()
	y := g.Process(x)
	return y, g.GetState(), g.IsOpen(), r""",
"""	if zzLevel(float32(zzAbs(x))) > t {
		return 0, "", false, 0
	}
	return x * float32(zzAmp(math.Min(0, l))), "closed", false, math.Min(0, l)""")
eq("gate_new","x, y float32","(float32, float32)",
GN+"\tp := g.Process(x)\n\treturn p, g.Process(y)",
GN+"\tg.SetThreshold(-40)\n\tg.SetHysteresis(5)\n\tg.SetAttack(0.001)\n\tg.SetHold(0.01)\n\tg.SetRelease(0.1)\n\tg.SetRange(-80)\n\tg.SetSidechainFilter(false, 100)\n\tp := g.Process(x)\n\treturn p, g.Process(y)")
eq("gate_filter","f, t float64, x, y float32","([2]float32, [2]string)",
"""	g := dynamics.NewGate(1000)
	g.SetSidechainFilter(true, f)
	g.SetThreshold(t)
	g.SetAttack(0)
	g.SetRelease(0)
	g.SetHold(0)
	p := g.Process(x)
	s := g.GetState()
	q := g.Process(y)
	return [2]float32{p, q}, [2]string{s, g.GetState()}""",
"""	a := math.Exp(-2 * math.Pi * math.Max(20, math.Min(f, 500)) / 1000)
	g := zzNewGate(t, 5, -80, 0, 0, 0)
	u := (1 + a) / 2 * float64(x)
	v := (1+a)/2*(float64(y)-float64(x)) + a*u
	p := x * g.step(zzLevel(float32(math.Abs(u))))
	s := g.at
	q := y * g.step(zzLevel(float32(math.Abs(v))))
	return [2]float32{p, q}, [2]string{s, g.at}""")
# ---- expander
for kn,arg in (("soft","k"),("hard","0")):
    eq(f"expand_{kn}","sr, t, r, k, l float64, x float32","(float32, float64)",
f"\te := dynamics.NewExpander(sr)\n\te.SetThreshold(t)\n\te.SetRatio(r)\n\te.SetKnee({arg})\n\te.SetRange(l)\n\te.SetAttack(0)\n\te.SetRelease(0)\n\ty := e.Process(x)\n\treturn y, e.GetGainReduction()",
DS+f"""	d.SetTimeConstants(0, 0)
	g := zzAmp(zzUnder(zzLevel(d.Detect(x)), t, math.Max(1, r), math.Max(0, {arg}), math.Min(0, l)))
	m := 0.0
	if g < 1 {{
		m = 20 * math.Log10(g)
	}}
	return x * float32(g), m""")
for n,xs in {"falls":"x, 0","back":"0.0009765625, x, x","free":"x, y"}.items():
    c=xs.count(",")+1
    eq(f"expand_{n}","x, y float32",f"[{c}]float32",
f"""	e := dynamics.NewExpander(1000)
	e.SetThreshold(-20)
	e.SetKnee(0)
	e.SetAttack(0.002)
	e.SetRelease(0.004)
	var o [{c}]float32
	for i, x := range [{c}]float32{{{xs}}} {{
		o[i] = e.Process(x)
	}}
	return o""",
f"""	d := envelope.NewDetector(1000, envelope.ModePeak)
	d.SetType(envelope.TypeLogarithmic)
	d.SetTimeConstants(0.002, 0.004)
	g := 1.0
	var o [{c}]float32
	for i, x := range [{c}]float32{{{xs}}} {{
		g = zzGlide(g, zzAmp(zzUnder(zzLevel(d.Detect(x)), -20, 2, 0, -40)), math.Exp(-0.25), math.Exp(-0.5))
		o[i] = x * float32(g)
	}}
	return o""")
eq("expand_attack","a float64","float32",
"\tif !(a > 0.001 && a < 10) {\n\t\treturn 0\n\t}\n\te := dynamics.NewExpander(1000)\n\te.SetAttack(a)\n\treturn e.Process(0.0009765625)",
"""	if !(a > 0.001 && a < 10) {
		return 0
	}
	d := envelope.NewDetector(1000, envelope.ModePeak)
	d.SetType(envelope.TypeLogarithmic)
	d.SetTimeConstants(a, 0.1)
	to := zzAmp(zzUnder(zzLevel(d.Detect(0.0009765625)), -40, 2, 2, -40))
	return 0.0009765625 * float32(to+(1-to)*zzKept(a, 1000))""")
eq("expand_new","sr float64, x, y float32","[2]float32",
"\te := dynamics.NewExpander(sr)\n\tp := e.Process(x)\n\treturn [2]float32{p, e.Process(y)}",
"\te := dynamics.NewExpander(sr)\n\te.SetThreshold(-40)\n\te.SetRatio(2)\n\te.SetAttack(0.001)\n\te.SetRelease(0.1)\n\te.SetKnee(2)\n\te.SetRange(-40)\n\tp := e.Process(x)\n\treturn [2]float32{p, e.Process(y)}")
eq("expand_unity","sr, t float64, x, y float32","[2]float32",
"\te := dynamics.NewExpander(sr)\n\te.SetThreshold(t)\n\te.SetRatio(1)\n\tp := e.Process(x)\n\treturn [2]float32{p, e.Process(y)}",
"\treturn [2]float32{x, y}")
for n,new in (("compress","NewCompressor"),("limit","NewLimiter"),("gate","NewGate"),("expand","NewExpander")):
    eq(f"{n}_again","x, y, z float32","(float32, float64)",
f"\tp := dynamics.{new}(1000)\n\tp.Process(x)\n\tp.Process(y)\n\tp.Reset()\n\tq := p.Process(z)\n\treturn q, p.GetGainReduction()",
f"\tp := dynamics.{new}(1000)\n\tq := p.Process(z)\n\treturn q, p.GetGainReduction()")
eq("limit_lookahead_peak","t float64, x, z float32","[3]float32",
"\tl := dynamics.NewLimiter(1000)\n\tl.SetLookahead(0.002)\n\tl.SetThreshold(t)\n\tp := l.Process(x)\n\tq := l.Process(0)\n\treturn [3]float32{p, q, l.Process(z)}",
"""	d, e := envelope.NewDetector(1000, envelope.ModePeak), envelope.NewDetector(1000, envelope.ModePeak)
	d.SetTimeConstants(0.0001, 0.05)
	e.SetTimeConstants(0, 0.001)
	d.Detect(float32(math.Max(zzAbs(zzBetween(0, x)), zzAbs(e.Detect(0)))))
	d.Detect(float32(math.Max(zzAbs(zzBetween(x, 0)), zzAbs(e.Detect(0)))))
	v := d.Detect(float32(math.Max(zzAbs(zzBetween(0, z)), zzAbs(e.Detect(x)))))
	return [3]float32{0, 0, x * float32(zzAmp(-zzAbove(zzLevel(float32(math.Max(float64(v), zzAbs(x)))), math.Min(0, t))))}""")
for ty,extra in (("Compressor",""),("Limiter","\tc.SetThreshold(0)\n\tc.SetTruePeak(false)\n")):
    n={"Compressor":"compress","Limiter":"limit"}[ty]
    eq(f"{n}_lookahead_change","","[6]float32",
f"\tc := dynamics.New{ty}(1000)\n{extra}\tc.SetLookahead(0.004)\n\tfor i := 0; i < 3; i++ {{\n\t\tc.Process(0)\n\t}}\n\tc.SetLookahead(0.002)\n\tvar y [6]float32\n\ty[0] = c.Process(0.0625)\n\tfor i := 1; i < 6; i++ {{\n\t\ty[i] = c.Process(0)\n\t}}\n\treturn y",
f"\treturn [6]float32{{2: 0.0625}}")
# linked histories
for ty,extra,xs,ys in (("Gate","\tp.SetThreshold(-20)\n\tp.SetHysteresis(6)\n\tp.SetRange(-40)\n\tp.SetAttack(0.001)\n\tp.SetRelease(0.0015)\n\tp.SetHold(0.002)\n","1, 0, 1, 1, 0.25, 0, x, 0, 0, y, 0.5","0.5, 1, 0.25, -1, 1, 0.0625, y, 0.03125, 0.0625, x, 0"),
    ("Expander","\tp.SetThreshold(-20)\n\tp.SetKnee(0)\n\tp.SetAttack(0.002)\n\tp.SetRelease(0.004)\n","0, 0.0625, x","0.0625, -0.03125, 0.0625"),
    ("Compressor","\tp.SetThreshold(-20)\n\tp.SetMakeupGain(6)\n","0, 0.0625, x","0.0625, -0.5, 0.25"),
    ("Limiter","\tp.SetLookahead(0)\n\tp.SetTruePeak(false)\n\tp.SetThreshold(-20)\n","0, 0.0625, x","0.0625, -0.5, 0.25")):
    c=xs.count(",")+1
    eq(f"linked_{ty.lower()}_history","x, y float32",f"([{c}]float32, float64)",
f"""	if !(x > 0) {{
		x = 1
	}}
	if !(y > 0) {{
		y = 1
	}}
	p := dynamics.New{ty}(1000)
{extra}	a, b := make([]float32, {c}), make([]float32, {c})
	l, r := []float32{{{xs}}}, []float32{{{ys}}}
	p.ProcessStereo(l, r, a, b)
	var o [{c}]float32
	for i := range o {{
		o[i] = a[i] + 2*b[i]
	}}
	return o, p.GetGainReduction()""",
f"""	if !(x > 0) {{
		x = 1
	}}
	if !(y > 0) {{
		y = 1
	}}
	p := dynamics.New{ty}(1000)
{extra}	l, r := []float32{{{xs}}}, []float32{{{ys}}}
	var o [{c}]float32
	for i := range o {{
		m := zzMaxOf(l[i], r[i])
		g := p.Process(m) / m
		o[i] = l[i]*g + 2*(r[i]*g)
	}}
	return o, p.GetGainReduction()""")
import subprocess
p='/verif/sa/refs/c16_dynamics.go.txt'
t=subprocess.run(['gofmt'],input="\n".join(out),capture_output=True,text=True)
print(t.stderr)
open(p,'w').write(t.stdout)
