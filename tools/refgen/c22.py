import subprocess
out=['''// Ring modulator, tremolo, chorus, flanger and phaser.
package zzvsaref

import (
	"math"

	modulation "github.com/justyntemme/vst3go/pkg/dsp/modulation"
)

func zzIn(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

func zzCarrier(w modulation.Waveform, p float64) float64 {
	switch w {
	case modulation.WaveformTriangle:
		if p < 0.5 {
			return 4*p - 1
		}
		return 3 - 4*p
	case modulation.WaveformSquare:
		if p < 0.5 {
			return 1
		}
		return -1
	case modulation.WaveformSawtooth:
		return 2*p - 1
	}
	return math.Sin(2 * math.Pi * p)
}

func zzLFO(sr, hz float64, w modulation.Waveform, phase float64) *modulation.LFO {
	l := modulation.NewLFO(sr)
	l.SetFrequency(hz)
	l.SetWaveform(w)
	l.SetPhase(phase)
	return l
}

// a delay line that remembers everything
type zzLine struct{ at []float64 }

func (l *zzLine) back(d float64) float64 {
	n := int(d)
	f := d - float64(n)
	i := len(l.at) - 1 - n
	a, b := 0.0, 0.0
	if i >= 0 {
		a = l.at[i]
	}
	if i >= 1 {
		b = l.at[i-1]
	}
	return a*(1-f) + b*f
}

func zzClip(x float64) float64 {
	if x > 1 {
		return 1
	}
	if x < -1 {
		return -1
	}
	return x
}

// a flanger at a thousand samples a second: a millisecond is a sample
type zzFlanger struct {
	feedback, mix, last float64
	line                zzLine
}

func (f *zzFlanger) step(x, delay float64) (float64, float64) {
	f.line.at = append(f.line.at, zzClip(x+f.last*f.feedback))
	f.last = f.line.back(delay)
	return x*(1-f.mix) + f.last*f.mix, f.last * f.mix
}

// a first-order all-pass section and a phaser of some
type zzPass struct{ s float64 }

func (p *zzPass) step(x, a float64) float64 {
	y := a*x + p.s
	p.s = x - a*y
	return y
}

type zzPhaser struct {
	sr, lo, hi, feedback, mix, last float64
	lfo                             *modulation.LFO
	pass                            []zzPass
}

func (p *zzPhaser) step(x float64) (float64, float64) {
	at := (p.lfo.Process() + 1) / 2
	f := math.Exp(math.Log(p.lo) + (math.Log(p.hi)-math.Log(p.lo))*at)
	t := math.Tan(math.Pi * f / p.sr)
	y := zzClip(x + p.last*p.feedback)
	for i := range p.pass {
		y = p.pass[i].step(y, (1-t)/(1+t))
	}
	p.last = y
	return x*(1-p.mix) + y*p.mix, y * p.mix
}

// a chorus whose voices are delayed by the same times in each channel
type zzChorus struct {
	voices                              int
	feedback, mix, spread, lastL, lastR float64
	l, r                                zzLine
}

func (c *zzChorus) step(l, r float64, delays []float64) (float64, float64) {
	c.l.at = append(c.l.at, l+c.lastL*c.feedback)
	c.r.at = append(c.r.at, r+c.lastR*c.feedback)
	c.lastL, c.lastR = 0, 0
	for v := 0; v < c.voices; v++ {
		a, b := c.l.back(delays[v]), c.r.back(delays[v])
		if c.voices > 1 {
			turn := ((float64(v)/float64(c.voices-1)-0.5)*c.spread + 0.5) * math.Pi / 2
			a *= math.Cos(turn) / float64(c.voices)
			b *= math.Sin(turn) / float64(c.voices)
		}
		c.lastL += a
		c.lastR += b
	}
	return l*(1-c.mix) + c.lastL*c.mix, r*(1-c.mix) + c.lastR*c.mix
}
''']
def eq(n,args,ret,l,r):
    out.append(f"func Lhs_{n}({args}) {ret} {{\n{l}\n}}\n")
    out.append(f"func Rhs_{n}({args}) {ret} {{\n{r}\n}}\n")

# ring modulator: sample by sample from phase zero
for w in ("Sine","Triangle","Square","Sawtooth","Random"):
    wave=f"modulation.Waveform{w}"
    eq(f"ring_{w.lower()}","x, y, z, m float64","[3]float32",
f"""	r := modulation.NewRingModulator(1000)
	r.SetWaveform({wave})
	r.SetFrequency(375)
	r.SetMix(m)
	var o [3]float32
	o[0] = r.Process(float32(x))
	o[1] = r.Process(float32(y))
	o[2] = r.Process(float32(z))
	return o""",
f"""	m = zzIn(m, 0, 1)
	in := []float64{{x, y, z}}
	var o [3]float32
	for i := range o {{
		p := 0.375 * float64(i)
		o[i] = float32(in[i]*(1-m) + in[i]*zzCarrier({wave}, p)*m)
	}}
	return o""")
eq("ring_wraps","x float64","[8]float32",
"""	r := modulation.NewRingModulator(1000)
	r.SetWaveform(modulation.WaveformSawtooth)
	r.SetFrequency(437.5)
	r.SetMix(1)
	var o [8]float32
	for i := range o {
		o[i] = r.Process(float32(x))
	}
	return o""",
"""	var o [8]float32
	for i := range o {
		p := 0.4375 * float64(i)
		o[i] = float32(x * (2*(p-math.Floor(p)) - 1))
	}
	return o""")
# the frequency in its range, at the second sample
eq("ring_frequency","x, f float64","float32",
"""	if !(f > -1e6 && f < 1e6) {
		return 0
	}
	r := modulation.NewRingModulator(1000)
	r.SetWaveform(modulation.WaveformTriangle)
	r.SetFrequency(f)
	r.SetMix(1)
	r.Process(0)
	return r.Process(float32(x))""",
"""	if !(f > -1e6 && f < 1e6) {
		return 0
	}
	return float32(x * zzCarrier(modulation.WaveformTriangle, zzIn(f, 0.1, 500)/1000))""")
eq("ring_lfo","x, y, z, d float64","[3]float32",
"""	r := modulation.NewRingModulator(1000)
	r.SetWaveform(modulation.WaveformSawtooth)
	r.SetFrequency(125)
	r.EnableLFO(true)
	r.SetLFORate(10)
	r.SetLFODepth(d)
	r.SetMix(1)
	var o [3]float32
	o[0] = r.Process(float32(x))
	o[1] = r.Process(float32(y))
	o[2] = r.Process(float32(z))
	return o""",
"""	d = zzIn(d, 0, 1)
	l := zzLFO(1000, 10, modulation.WaveformSine, 0)
	in := []float64{x, y, z}
	p := 0.0
	var o [3]float32
	for i := range o {
		o[i] = float32(in[i] * (2*p - 1))
		p += 125 * (1 + l.Process()*d) / 1000
		if p >= 1 {
			p--
		}
	}
	return o""")
eq("ring_lfo_off","x, y, z float64","[3]float32",
"""	r := modulation.NewRingModulator(1000)
	r.SetFrequency(125)
	r.EnableLFO(true)
	r.Process(float32(x))
	r.Process(float32(x))
	r.Reset()
	r.EnableLFO(false)
	var o [3]float32
	o[0] = r.Process(float32(x))
	o[1] = r.Process(float32(y))
	o[2] = r.Process(float32(z))
	return o""",
"""	r := modulation.NewRingModulator(1000)
	r.SetFrequency(125)
	var o [3]float32
	o[0] = r.Process(float32(x))
	o[1] = r.Process(float32(y))
	o[2] = r.Process(float32(z))
	return o""")
eq("ring_new","x, y float64","[2]float32",
"""	r := modulation.NewRingModulator(1000)
	var o [2]float32
	o[0] = r.Process(float32(x))
	o[1] = r.Process(float32(y))
	return o""",
"""	var o [2]float32
	o[0] = float32(x * 0.5)
	o[1] = float32(y*0.5 + y*math.Sin(2*math.Pi*440/1000)*0.5)
	return o""")
eq("ring_stereo","a, b, c, d, m float64","[4]float32",
"""	r := modulation.NewRingModulator(1000)
	r.EnableLFO(true)
	r.SetMix(m)
	var o [4]float32
	o[0], o[1] = r.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = r.ProcessStereo(float32(c), float32(d))
	return o""",
"""	p, q := modulation.NewRingModulator(1000), modulation.NewRingModulator(1000)
	p.EnableLFO(true)
	q.EnableLFO(true)
	p.SetMix(m)
	q.SetMix(m)
	var o [4]float32
	o[0], o[1] = p.Process(float32(a)), q.Process(float32(b))
	o[2], o[3] = p.Process(float32(c)), q.Process(float32(d))
	return o""")
eq("ring_reset","x, y, z float64","[2]float32",
"""	r := modulation.NewRingModulator(1000)
	r.EnableLFO(true)
	r.Process(float32(x))
	r.Process(float32(y))
	r.Reset()
	var o [2]float32
	o[0] = r.Process(float32(z))
	o[1] = r.Process(float32(x))
	return o""",
"""	r := modulation.NewRingModulator(1000)
	r.EnableLFO(true)
	var o [2]float32
	o[0] = r.Process(float32(z))
	o[1] = r.Process(float32(x))
	return o""")
# tremolo
for mode,gain in (("Normal","1 - d*(1-v)/2"),("Harmonic","1 - d*math.Abs(v)")):
    for w in ("Sine","Triangle","Sawtooth","Random"):
        eq(f"tremolo_{mode.lower()}_{w.lower()}","x, y, z, d float64","[3]float32",
f"""	t := modulation.NewTremolo(1000)
	t.SetMode(modulation.TremoloMode{mode})
	t.SetWaveform(modulation.Waveform{w})
	t.SetRate(10)
	t.SetDepth(d)
	var o [3]float32
	o[0] = t.Process(float32(x))
	o[1] = t.Process(float32(y))
	o[2] = t.Process(float32(z))
	return o""",
f"""	d = zzIn(d, 0, 1)
	l := zzLFO(1000, 10, modulation.Waveform{w}, 0)
	in := []float64{{x, y, z}}
	var o [3]float32
	for i := range o {{
		v := l.Process()
		o[i] = float32(in[i] * ({gain}))
	}}
	return o""")
eq("tremolo_rate","x, y, f float64","[2]float32",
"""	t := modulation.NewTremolo(1000)
	t.SetWaveform(modulation.WaveformTriangle)
	t.SetDepth(1)
	t.SetRate(f)
	var o [2]float32
	o[0] = t.Process(float32(x))
	o[1] = t.Process(float32(y))
	return o""",
"""	l := zzLFO(1000, zzIn(f, 0.01, 20), modulation.WaveformTriangle, 0)
	var o [2]float32
	o[0] = float32(x * (1 + l.Process()) / 2)
	o[1] = float32(y * (1 + l.Process()) / 2)
	return o""")
eq("tremolo_square_smooth","x, y, z, d float64","[3]float32",
"""	t := modulation.NewTremolo(1000)
	t.SetRate(20)
	t.SetDepth(d)
	t.SetWaveform(modulation.WaveformSquare)
	for i := 0; i < 24; i++ {
		t.Process(0)
	}
	var o [3]float32
	o[0] = t.Process(float32(x))
	o[1] = t.Process(float32(y))
	o[2] = t.Process(float32(z))
	return o""",
"""	d = zzIn(d, 0, 1)
	keep := math.Exp(-1 / (0.005 * 1000))
	l := zzLFO(1000, 20, modulation.WaveformSquare, 0)
	gain := 1.0
	in := make([]float64, 27)
	in[24], in[25], in[26] = x, y, z
	var o [3]float32
	for i := range in {
		to := 1 - d*(1-l.Process())/2
		gain = to + (gain-to)*keep
		if i >= 24 {
			o[i-24] = float32(in[i] * gain)
		}
	}
	return o""")
eq("tremolo_smooth_chosen","x, y, d float64","[2]float32",
"""	t := modulation.NewTremolo(1000)
	t.SetRate(20)
	t.SetDepth(d)
	t.EnableSmoothing(true)
	var o [2]float32
	o[0] = t.Process(float32(x))
	o[1] = t.Process(float32(y))
	return o""",
"""	d = zzIn(d, 0, 1)
	keep := math.Exp(-1 / (0.005 * 1000))
	l := zzLFO(1000, 20, modulation.WaveformSine, 0)
	to := 1 - d*(1-l.Process())/2
	gain := to + (1-to)*keep
	var o [2]float32
	o[0] = float32(x * gain)
	to = 1 - d*(1-l.Process())/2
	gain = to + (gain-to)*keep
	o[1] = float32(y * gain)
	return o""")
eq("tremolo_new","x, y float64","[2]float32",
"""	t := modulation.NewTremolo(1000)
	var o [2]float32
	o[0] = t.Process(float32(x))
	o[1] = t.Process(float32(y))
	return o""",
"""	var o [2]float32
	o[0] = float32(x * 0.75)
	o[1] = float32(y * (0.75 + math.Sin(2*math.Pi*5/1000)/4))
	return o""")
for smooth in (0,1):
    pre="\tt.EnableSmoothing(true)\n" if smooth else ""
    eq(f"tremolo_gain_{'smooth' if smooth else 'plain'}","x, d float64","[2]float64",
f"""	t := modulation.NewTremolo(1000)
	t.SetWaveform(modulation.WaveformTriangle)
{pre}	t.SetDepth(d)
	g := float64(t.Process(1))
	q, _ := t.ProcessStereo(1, 1)
	return [2]float64{{g - t.GetCurrentGain() + float64(q), t.GetCurrentGain()}}""",
f"""	t := modulation.NewTremolo(1000)
	t.SetWaveform(modulation.WaveformTriangle)
{pre}	t.SetDepth(d)
	g := float64(t.Process(1))
	q := float64(t.Process(1))
	return [2]float64{{g, q}}""")
for w in ("Triangle","Sine"):
  for mode in ("Normal","Harmonic"):
    eq(f"tremolo_stereo_{w.lower()}_{mode.lower()}","a, b, c, e, d float64","[4]float32",
f"""	t := modulation.NewTremolo(1000)
	t.SetWaveform(modulation.Waveform{w})
	t.SetMode(modulation.TremoloMode{mode})
	t.SetStereoPhase(0.25)
	t.SetStereo(true)
	t.SetDepth(d)
	var o [4]float32
	o[0], o[1] = t.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = t.ProcessStereo(float32(c), float32(e))
	return o""",
f"""	d = zzIn(d, 0, 1)
	p := zzLFO(1000, 5, modulation.Waveform{w}, 0)
	q := zzLFO(1000, 5, modulation.Waveform{w}, 0.25)
	gain := func(v float64) float64 {{ return {"1 - d*(1-v)/2" if mode=="Normal" else "1 - d*math.Abs(v)"} }}
	var o [4]float32
	o[0], o[1] = float32(a*gain(p.Process())), float32(b*gain(q.Process()))
	o[2], o[3] = float32(c*gain(p.Process())), float32(e*gain(q.Process()))
	return o""")
eq("tremolo_stereo_off","a, b, c, e, d, h float64","[4]float32",
"""	t := modulation.NewTremolo(1000)
	t.SetWaveform(modulation.WaveformTriangle)
	t.SetStereoPhase(h)
	t.SetDepth(d)
	var o [4]float32
	o[0], o[1] = t.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = t.ProcessStereo(float32(c), float32(e))
	return o""",
"""	p, q := modulation.NewTremolo(1000), modulation.NewTremolo(1000)
	p.SetWaveform(modulation.WaveformTriangle)
	q.SetWaveform(modulation.WaveformTriangle)
	p.SetDepth(d)
	q.SetDepth(d)
	var o [4]float32
	o[0], o[1] = p.Process(float32(a)), q.Process(float32(b))
	o[2], o[3] = p.Process(float32(c)), q.Process(float32(e))
	return o""")
for nm,calls in (("phase","\tt.SetStereo(true)\n\tX\n\tt.SetStereoPhase(0.25)\n"),("on","\tt.SetStereoPhase(0.25)\n\tX\n\tt.SetStereo(true)\n")):
    eq(f"tremolo_stereo_late_{nm}","a, b, c, e float64","[4]float32",
f"""	t := modulation.NewTremolo(1000)
	t.SetWaveform(modulation.WaveformTriangle)
	t.SetRate(15.625)
{calls.replace("X","for i := 0; i < 8; i++ { t.ProcessStereo(0, 0) }")}	var o [4]float32
	o[0], o[1] = t.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = t.ProcessStereo(float32(c), float32(e))
	return o""",
f"""	tri := func(p float64) float64 {{ return 1 - 0.5*(1-zzCarrier(modulation.WaveformTriangle, p))/2 }}
	var o [4]float32
	o[0], o[1] = float32(a*tri(0.125)), float32(b*tri(0.375))
	o[2], o[3] = float32(c*tri(0.140625)), float32(e*tri(0.390625))
	return o""")
eq("tremolo_stereo_smooth","a, b, d float64","[2]float32",
"""	t := modulation.NewTremolo(1000)
	t.SetStereoPhase(0.25)
	t.SetStereo(true)
	t.SetDepth(d)
	t.EnableSmoothing(true)
	t.ProcessStereo(0, 0)
	l, r := t.ProcessStereo(float32(a), float32(b))
	return [2]float32{l, r}""",
"""	d = zzIn(d, 0, 1)
	keep := math.Exp(-1 / (0.005 * 1000))
	p := zzLFO(1000, 5, modulation.WaveformSine, 0)
	q := zzLFO(1000, 5, modulation.WaveformSine, 0.25)
	l, r := 1.0, 1.0
	for i := 0; i < 2; i++ {
		to := 1 - d*(1-p.Process())/2
		l = to + (l-to)*keep
		to = 1 - d*(1-q.Process())/2
		r = to + (r-to)*keep
	}
	return [2]float32{float32(a * l), float32(b * r)}""")
eq("tremolo_reset","a, b, c, e float64","[4]float32",
"""	t := modulation.NewTremolo(1000)
	t.SetStereoPhase(0.25)
	t.SetStereo(true)
	t.EnableSmoothing(true)
	t.ProcessStereo(float32(a), float32(e))
	t.ProcessStereo(float32(c), float32(e))
	t.Reset()
	var o [4]float32
	o[0], o[1] = t.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = t.ProcessStereo(float32(c), float32(e))
	return o""",
"""	t := modulation.NewTremolo(1000)
	t.SetStereoPhase(0.25)
	t.SetStereo(true)
	t.EnableSmoothing(true)
	var o [4]float32
	o[0], o[1] = t.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = t.ProcessStereo(float32(c), float32(e))
	return o""")
# flanger
for nm,delay,depth,manual,want in (("middle",5,4,0.5,5),("low",5,4,0.25,3),("between",2.5,0.5,0.75,2.75),("high",3,2,1,5),("below",0.01,0,0.5,0.5)):
    eq(f"flange_manual_{nm}","a, b, c, d, e, f, g, h, fb, m float64","[8]float32",
f"""	p := modulation.NewFlanger({1000 if want>=1 else 5000})
	p.SetDelay({delay})
	p.SetDepth({depth})
	p.SetManualMode(true)
	p.SetManual({manual})
	p.SetFeedback(fb)
	p.SetMix(m)
	in := []float64{{a, b, c, d, e, f, g, h}}
	var o [8]float32
	for i := range o {{
		o[i] = p.Process(float32(in[i]))
	}}
	return o""" if want>=1 else f"""	p := modulation.NewFlanger({1000 if want>=1 else 5000})
	p.SetDelay({delay})
	p.SetDepth({depth})
	p.SetManualMode(true)
	p.SetManual({manual})
	p.SetFeedback(fb)
	p.SetMix(m)
	in := []float64{{a, b, c}}
	var o [8]float32
	for i := range in {{
		o[i] = p.Process(float32(in[i]))
	}}
	return o""",
f"""	p := &zzFlanger{{feedback: zzIn(fb, -0.99, 0.99), mix: zzIn(m, 0, 1)}}
	in := []float64{{a, b, c, d, e, f, g, h}}
	var o [8]float32
	for i := range o {{
		y, _ := p.step(in[i], {want})
		o[i] = float32(y)
	}}
	return o""" if want>=1 else f"""	p := &zzFlanger{{feedback: zzIn(fb, -0.99, 0.99), mix: zzIn(m, 0, 1)}}
	in := []float64{{a, b, c}}
	var o [8]float32
	for i := range in {{
		y, _ := p.step(in[i], {want})
		o[i] = float32(y)
	}}
	return o""")
for nm,rate,n,delay,depth in (("slow",15.625,8,5,2),("default",None,8,5,2)):
    eq(f"flange_lfo_{nm}","a, b, c, d float64","[8]float32",
f"""	p := modulation.NewFlanger(1000)
	p.SetRate(15.625)
{f"	p.SetDelay({delay})"+chr(10)+f"	p.SetDepth({depth})"+chr(10) if rate else ""}	in := []float64{{a, b, c, d, 0, 0, 0, 0}}
	var o [8]float32
	for i := range o {{
		o[i] = p.Process(float32(in[i]))
	}}
	return o""",
f"""	p := &zzFlanger{{feedback: 0.5, mix: 0.5}}
	in := []float64{{a, b, c, d, 0, 0, 0, 0}}
	var o [8]float32
	for i := range o {{
		y, _ := p.step(in[i], {delay}+{depth}*(4*float64(i)*15.625/1000-1))
		o[i] = float32(y)
	}}
	return o""")
eq("flange_wraps","a, b float64","[2]float32",
"""	p := modulation.NewFlanger(500)
	p.SetDelay(10)
	p.SetManualMode(true)
	p.SetFeedback(0)
	p.SetMix(1)
	for i := 0; i < 20; i++ {
		p.Process(0)
	}
	p.Process(float32(a))
	p.Process(float32(b))
	for i := 0; i < 3; i++ {
		p.Process(0)
	}
	var o [2]float32
	o[0] = p.Process(0)
	o[1] = p.Process(0)
	return o""",
"""	var o [2]float32
	o[0], o[1] = float32(zzClip(float64(float32(a)))), float32(zzClip(float64(float32(b))))
	return o""")
eq("flange_stereo","a, b, c, d, m float64","[4]float32",
"""	p := modulation.NewFlanger(1000)
	p.SetManualMode(true)
	p.SetDelay(1)
	p.SetMix(m)
	var o [4]float32
	o[0], o[1] = p.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = p.ProcessStereo(float32(c), float32(d))
	return o""",
"""	m = zzIn(m, 0, 1)
	p := &zzFlanger{feedback: 0.5, mix: m}
	var o [4]float32
	y, wet := p.step(a, 1)
	o[0], o[1] = float32(y), float32(b*(1-m)-wet)
	y, wet = p.step(c, 1)
	o[2], o[3] = float32(y), float32(d*(1-m)-wet)
	return o""")
eq("flange_reset","a, b, c, d float64","[2]float32",
"""	p := modulation.NewFlanger(1000)
	p.SetRate(15.625)
	p.SetDelay(1)
	p.SetDepth(0.5)
	p.Process(float32(a))
	p.Process(float32(b))
	p.Reset()
	var o [2]float32
	o[0] = p.Process(float32(c))
	o[1] = p.Process(float32(d))
	return o""",
"""	p := modulation.NewFlanger(1000)
	p.SetRate(15.625)
	p.SetDelay(1)
	p.SetDepth(0.5)
	var o [2]float32
	o[0] = p.Process(float32(c))
	o[1] = p.Process(float32(d))
	return o""")
# phaser
eq("phase_pass","x, y, z, f float64","[3]float32",
"""	p := modulation.NewAllPassFilter()
	p.SetFrequency(f, 1000)
	var o [3]float32
	o[0] = p.Process(float32(x))
	o[1] = p.Process(float32(y))
	o[2] = p.Process(float32(z))
	return o""",
"""	t := math.Tan(math.Pi * f / 1000)
	p := &zzPass{}
	var o [3]float32
	o[0] = float32(p.step(x, (1-t)/(1+t)))
	o[1] = float32(p.step(y, (1-t)/(1+t)))
	o[2] = float32(p.step(z, (1-t)/(1+t)))
	return o""")
# what comes out of an all-pass has the energy of what went in: the state and the
# output together are the state and the input
eq("phase_pass_energy","x, s, f float64","float64",
"""	t := math.Tan(math.Pi * f / 1000)
	a := (1 - t) / (1 + t)
	p := modulation.NewAllPassFilter()
	p.SetFrequency(f, 1000)
	p.Process(float32(s))
	y := float64(p.Process(float32(x)))
	now := x - a*y
	return (1-a*a)*y*y + now*now""",
"""	t := math.Tan(math.Pi * f / 1000)
	a := (1 - t) / (1 + t)
	was := s - a*(a*s)
	return (1-a*a)*x*x + was*was""")
eq("phase_step","x, y, fb, m float64","[2]float32",
"""	p := modulation.NewPhaser(48000)
	p.SetFeedback(fb)
	p.SetMix(m)
	var o [2]float32
	o[0] = p.Process(float32(x))
	o[1] = p.Process(float32(y))
	return o""",
"""	p := &zzPhaser{sr: 48000, lo: 750, hi: 1250, feedback: zzIn(fb, -0.99, 0.99), mix: zzIn(m, 0, 1), lfo: zzLFO(48000, 0.5, modulation.WaveformSine, 0), pass: make([]zzPass, 4)}
	var o [2]float32
	u, _ := p.step(x)
	v, _ := p.step(y)
	o[0], o[1] = float32(u), float32(v)
	return o""")
for n,k in ((0,2),(2,2),(3,2),(5,4),(6,6),(8,8),(9,8)):
    eq(f"phase_stages_{n}","x, y float64","[2]float32",
f"""	p := modulation.NewPhaser(48000)
	p.SetStages({n})
	p.SetFeedback(0)
	p.SetMix(1)
	var o [2]float32
	o[0] = p.Process(float32(x))
	o[1] = p.Process(float32(y))
	return o""",
f"""	p := &zzPhaser{{sr: 48000, lo: 750, hi: 1250, mix: 1, lfo: zzLFO(48000, 0.5, modulation.WaveformSine, 0), pass: make([]zzPass, {k})}}
	var o [2]float32
	u, _ := p.step(x)
	v, _ := p.step(y)
	o[0], o[1] = float32(u), float32(v)
	return o""")
for nm,call,lo,hi in (("depth","p.SetDepth(d)","math.Max(20, 1000-500*zzIn(d, 0, 1))","1000+500*zzIn(d, 0, 1)"),
  ("centre","p.SetCenterFrequency(d)","zzIn(d, 100, 4000)*0.75","zzIn(d, 100, 4000)*1.25"),
  ("narrow","p.SetDepth(1)\n\tp.SetCenterFrequency(d)","zzIn(d, 100, 4000)*0.5","zzIn(d, 100, 4000)*1.5"),
  ("range","p.SetFrequencyRange(d, 3000)","zzIn(d, 20, 12000)","math.Max(zzIn(d, 20, 12000)+100, 3000)"),
  ("upper","p.SetFrequencyRange(300, d)","300","math.Max(400, math.Min(24000, d))")):
    eq(f"phase_sweep_{nm}","x, d float64","float32",
f"""	if !(d > -1e6 && d < 1e6) {{
		return 0
	}}
	p := modulation.NewPhaser(48000)
	{call}
	p.SetStages(2)
	p.SetMix(1)
	return p.Process(float32(x))""",
f"""	if !(d > -1e6 && d < 1e6) {{
		return 0
	}}
	p := &zzPhaser{{sr: 48000, lo: {lo}, hi: {hi}, feedback: 0.5, mix: 1, lfo: zzLFO(48000, 0.5, modulation.WaveformSine, 0), pass: make([]zzPass, 2)}}
	y, _ := p.step(x)
	return float32(y)""")
eq("phase_rate","x, y float64","[2]float32",
"""	p := modulation.NewPhaser(48000)
	p.SetStages(2)
	p.SetRate(7)
	var o [2]float32
	o[0] = p.Process(float32(x))
	o[1] = p.Process(float32(y))
	return o""",
"""	p := &zzPhaser{sr: 48000, lo: 750, hi: 1250, feedback: 0.5, mix: 0.5, lfo: zzLFO(48000, 7, modulation.WaveformSine, 0), pass: make([]zzPass, 2)}
	var o [2]float32
	u, _ := p.step(x)
	v, _ := p.step(y)
	o[0], o[1] = float32(u), float32(v)
	return o""")
eq("phase_stereo","a, b, c, d, m float64","[4]float32",
"""	p := modulation.NewPhaser(48000)
	p.SetStages(2)
	p.SetMix(m)
	var o [4]float32
	o[0], o[1] = p.ProcessStereo(float32(a), float32(b))
	o[2], o[3] = p.ProcessStereo(float32(c), float32(d))
	return o""",
"""	m = zzIn(m, 0, 1)
	p := &zzPhaser{sr: 48000, lo: 750, hi: 1250, feedback: 0.5, mix: m, lfo: zzLFO(48000, 0.5, modulation.WaveformSine, 0), pass: make([]zzPass, 2)}
	var o [4]float32
	y, wet := p.step(a)
	o[0], o[1] = float32(y), float32(b*(1-m)-wet)
	y, wet = p.step(c)
	o[2], o[3] = float32(y), float32(d*(1-m)-wet)
	return o""")
eq("phase_reset","a, b, c, d float64","[2]float32",
"""	p := modulation.NewPhaser(48000)
	p.Process(float32(a))
	p.Process(float32(b))
	p.Reset()
	var o [2]float32
	o[0] = p.Process(float32(c))
	o[1] = p.Process(float32(d))
	return o""",
"""	p := modulation.NewPhaser(48000)
	var o [2]float32
	o[0] = p.Process(float32(c))
	o[1] = p.Process(float32(d))
	return o""")
# chorus
for v in (0,1,2,3,4,5):
    eq(f"chorus_voices_{v}","a, b, c, d, s, fb, m float64","[12]float32",
f"""	p := modulation.NewChorus(1000)
	p.SetVoices({v})
	p.SetDepth(0)
	p.SetDelay(2)
	p.SetSpread(s)
	p.SetFeedback(fb)
	p.SetMix(m)
	l, r := []float64{{a, b, 0, 0, 0, 0}}, []float64{{c, d, 0, 0, 0, 0}}
	var o [12]float32
	for i := range l {{
		o[2*i], o[2*i+1] = p.ProcessStereo(float32(l[i]), float32(r[i]))
	}}
	return o""",
f"""	p := &zzChorus{{voices: {max(1,min(4,v))}, feedback: zzIn(fb, 0, 0.5), mix: zzIn(m, 0, 1), spread: zzIn(s, 0, 1)}}
	l, r := []float64{{a, b, 0, 0, 0, 0}}, []float64{{c, d, 0, 0, 0, 0}}
	var o [12]float32
	for i := range l {{
		u, v := p.step(l[i], r[i], []float64{{2, 2, 2, 2}})
		o[2*i], o[2*i+1] = float32(u), float32(v)
	}}
	return o""")
for v in (1,2,4):
    ds={1:[5.6],2:[5.6,2.4],4:[5.6,4,2.4,4]}[v]
    eq(f"chorus_moves_{v}","a, b, c, d, e float64","[2]float32",
f"""	p := modulation.NewChorus(160)
	p.SetVoices({v})
	p.SetRate(10)
	p.SetDepth(0)
	p.SetDelay(25)
	p.SetMix(1)
	p.ProcessStereo(float32(a), float32(e))
	p.ProcessStereo(float32(b), float32(d))
	p.ProcessStereo(float32(c), float32(c))
	p.ProcessStereo(float32(d), float32(b))
	p.SetDepth(10)
	l, r := p.ProcessStereo(float32(e), float32(a))
	return [2]float32{{l, r}}""",
f"""	p := &zzChorus{{voices: {v}, mix: 1, spread: 1}}
	still := []float64{{4, 4, 4, 4}}
	p.step(a, e, still)
	p.step(b, d, still)
	p.step(c, c, still)
	p.step(d, b, still)
	l, r := p.step(e, a, []float64{{{", ".join(map(str,ds))}}})
	return [2]float32{{float32(l), float32(r)}}""")
eq("chorus_delay_range","a, b, c, d float64","[4]float32",
"""	p := modulation.NewChorus(1000)
	p.SetVoices(1)
	p.SetDepth(0)
	p.SetDelay(0.25)
	p.SetMix(1)
	in := []float64{a, b, c, d}
	var o [4]float32
	for i := range o {
		o[i], _ = p.Process(float32(in[i]))
	}
	return o""",
"""	return [4]float32{0, float32(a), float32(b), float32(c)}""")
eq("chorus_long","a, b float64","[2]float32",
"""	p := modulation.NewChorus(500)
	p.SetVoices(1)
	p.SetDepth(0)
	p.SetDelay(60)
	p.SetMix(1)
	for i := 0; i < 20; i++ {
		p.Process(0)
	}
	p.Process(float32(a))
	p.Process(float32(b))
	for i := 0; i < 23; i++ {
		p.Process(0)
	}
	var o [2]float32
	o[0], _ = p.Process(0)
	o[1], _ = p.Process(0)
	return o""",
"""	return [2]float32{float32(a), float32(b)}""")
eq("chorus_new","a, b, c float64","[6]float32",
"""	p := modulation.NewChorus(1000)
	p.SetDelay(1)
	p.SetDepth(0)
	var o [6]float32
	o[0], o[1] = p.Process(float32(a))
	o[2], o[3] = p.Process(float32(b))
	o[4], o[5] = p.Process(float32(c))
	return o""",
"""	p := &zzChorus{voices: 2, mix: 0.5, spread: 1}
	var o [6]float32
	for i, x := range []float64{a, b, c} {
		l, r := p.step(x, x, []float64{1, 1})
		o[2*i], o[2*i+1] = float32(l), float32(r)
	}
	return o""")
eq("chorus_reset","a, b, c, d float64","[4]float32",
"""	p := modulation.NewChorus(160)
	p.SetVoices(3)
	p.SetFeedback(0.5)
	p.SetDepth(0)
	p.ProcessStereo(float32(a), float32(b))
	p.ProcessStereo(float32(c), float32(d))
	p.Reset()
	var o [4]float32
	o[0], o[1] = p.ProcessStereo(float32(d), float32(c))
	o[2], o[3] = p.ProcessStereo(float32(b), float32(a))
	return o""",
"""	p := modulation.NewChorus(160)
	p.SetVoices(3)
	p.SetFeedback(0.5)
	p.SetDepth(0)
	var o [4]float32
	o[0], o[1] = p.ProcessStereo(float32(d), float32(c))
	o[2], o[3] = p.ProcessStereo(float32(b), float32(a))
	return o""")
# where a delay line wraps around, between two samples
eq("chorus_edge","a, b float64","[3]float32",
"""	p := modulation.NewChorus(500)
	p.SetVoices(1)
	p.SetDepth(0)
	p.SetDelay(5)
	p.SetMix(1)
	for i := 0; i < 35; i++ {
		p.Process(0)
	}
	p.Process(float32(a))
	p.Process(float32(b))
	var o [3]float32
	for i := range o {
		o[i], _ = p.Process(0)
	}
	return o""",
"""	// two and a half samples back
	return [3]float32{float32(a / 2), float32(a/2 + b/2), float32(b / 2)}""")
eq("flange_edge","a, b float64","[3]float32",
"""	p := modulation.NewFlanger(500)
	p.SetDelay(5)
	p.SetDepth(0)
	p.SetFeedback(0)
	p.SetMix(1)
	for i := 0; i < 11; i++ {
		p.Process(0)
	}
	p.Process(float32(a))
	p.Process(float32(b))
	var o [3]float32
	for i := range o {
		o[i] = p.Process(0)
	}
	return o""",
"""	a, b = zzClip(a), zzClip(b)
	return [3]float32{float32(a / 2), float32(a/2 + b/2), float32(b / 2)}""")
for k in (1,3,5,7):
    eq(f"phase_turn_{k}","x, y float64","[2]float32",
f"""	p := modulation.NewPhaser(80)
	p.SetFrequencyRange(20, 30)
	p.SetRate(10)
	p.SetStages(2)
	p.SetFeedback(0)
	p.SetMix(1)
	for i := 0; i < {k}; i++ {{
		p.Process(0)
	}}
	var o [2]float32
	o[0] = p.Process(float32(x))
	o[1] = p.Process(float32(y))
	return o""",
f"""	p := &zzPhaser{{sr: 80, lo: 20, hi: 120, mix: 1, lfo: zzLFO(80, 10, modulation.WaveformSine, 0), pass: make([]zzPass, 2)}}
	for i := 0; i < {k}; i++ {{
		p.lfo.Process()
	}}
	var o [2]float32
	u, _ := p.step(x)
	v, _ := p.step(y)
	o[0], o[1] = float32(u), float32(v)
	return o""")
eq("ring_lfo_switched","x, y, z, w float64","[5]float32",
"""	p := modulation.NewRingModulator(80)
	p.SetWaveform(modulation.WaveformSawtooth)
	p.SetFrequency(10)
	p.SetMix(1)
	p.SetLFORate(20)
	p.SetLFODepth(0.5)
	p.EnableLFO(true)
	var o [5]float32
	o[0] = p.Process(float32(x))
	o[1] = p.Process(float32(y))
	p.EnableLFO(false)
	o[2] = p.Process(float32(z))
	o[3] = p.Process(float32(w))
	p.EnableLFO(true)
	o[4] = p.Process(float32(x))
	return o""",
"""	return [5]float32{float32(-x), float32(-0.75 * y), float32(-0.375 * z), float32(-0.125 * w), float32(0.125 * x)}""")
p='/verif/sa/refs/c22_modulation.go.txt'
t=subprocess.run(['gofmt'],input="\n".join(out),capture_output=True,text=True)
print(t.stderr)
open(p,'w').write(t.stdout)
