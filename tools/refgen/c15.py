out=['''// Oscillators, envelopes, LFOs and noise.
package zzvsaref

import (
	"math"
	"math/rand"

	envelope "github.com/justyntemme/vst3go/pkg/dsp/envelope"
	modulation "github.com/justyntemme/vst3go/pkg/dsp/modulation"
	oscillator "github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	utility "github.com/justyntemme/vst3go/pkg/dsp/utility"
)

func zzTurn(x float64) float64 { return x - math.Floor(x) }

// the waves over one turn

func zzSaw(p float64) float64 { return 2*p - 1 }
func zzSquare(p float64) float64 {
	if p < 0.5 {
		return 1
	}
	return -1
}
func zzTri(p float64) float64 {
	if p < 0.5 {
		return 4*p - 1
	}
	return 3 - 4*p
}
func zzSin(p float64) float64 { return math.Sin(2 * math.Pi * p) }

// the part of the way that is left after one sample of a time constant
func zzKeep(t, least, sr float64) float64 {
	if t < least {
		t = least
	}
	return math.Exp(-1 / (t * sr))
}
func zzClip(x, lo, hi float64) float64 {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// white noise of a seed
type zzWhite struct{ r *rand.Rand }

func (w zzWhite) next() float32 { return float32(w.r.Float64()*2 - 1) }
func zzSeeded(seed int64) zzWhite {
	rand.Int63()
	return zzWhite{rand.New(rand.NewSource(seed))}
}
func zzNoise(t utility.NoiseType, seed int64) *utility.NoiseGenerator {
	n := utility.NewNoiseGenerator(t)
	n.SetSeed(seed)
	return n
}
''']
def eq(name, params, ret, l, r):
    out.append(f"func Lhs_{name}({params}) {ret} {{\n{l}\n}}\nfunc Rhs_{name}({params}) {ret} {{\n{r}\n}}\n")
F6="[6]float32"
# waves at exact phases, going up and down
for w in ("Sine","Saw","Square","Triangle"):
    z={"Sine":"zzSin","Saw":"zzSaw","Square":"zzSquare","Triangle":"zzTri"}[w]
    for f,n in ((1,"up"),(3,"fast"),(-1,"down"),(9,"over"),(-11,"under")):
        eq(f"wave_{w.lower()}_{n}","", "[12]float32",
f"\to := oscillator.New(8)\n\to.SetFrequency({f})\n\tvar y [12]float32\n\tfor i := range y {{\n\t\ty[i] = o.{w}()\n\t}}\n\treturn y",
f"\tvar y [12]float32\n\tfor i := range y {{\n\t\ty[i] = float32({z}(zzTurn(float64(i) * {f} / 8)))\n\t}}\n\treturn y")
    eq(f"wave_{w.lower()}_any","f float64","[4]float32",
f"\tif !(f > 0 && f < 0.125) {{\n\t\treturn [4]float32{{}}\n\t}}\n\to := oscillator.New(1)\n\to.SetFrequency(f)\n\to.SetPhase(2.5)\n\tvar y [4]float32\n\tfor i := range y {{\n\t\ty[i] = o.{w}()\n\t}}\n\treturn y",
f"\tif !(f > 0 && f < 0.125) {{\n\t\treturn [4]float32{{}}\n\t}}\n\treturn [4]float32{{float32({z}(0.5)), float32({z}(0.5 + f)), float32({z}(0.5 + 2*f)), float32({z}(0.5 + 3*f))}}")
    eq(f"wave_{w.lower()}_block","f, p float64","[4]float32",
f"\to := oscillator.New(48000)\n\to.SetFrequency(f)\n\to.SetPhase(p)\n\tb := make([]float32, 4)\n\to.Process{w}(b[:3])\n\to.Process{w}(b[3:])\n\treturn [4]float32{{b[0], b[1], b[2], b[3]}}",
f"\to := oscillator.New(48000)\n\to.SetPhase(p)\n\to.SetFrequency(f)\n\tvar y [4]float32\n\tfor i := range y {{\n\t\ty[i] = o.{w}()\n\t}}\n\treturn y")
eq("wave_pulse","w float64","[8]float32",
"\to := oscillator.New(8)\n\to.SetFrequency(1)\n\tvar y [8]float32\n\tfor i := range y {\n\t\ty[i] = o.Pulse(w)\n\t}\n\treturn y",
"\tvar y [8]float32\n\tfor i := range y {\n\t\tif float64(i)/8 < w {\n\t\t\ty[i] = 1\n\t\t} else {\n\t\t\ty[i] = -1\n\t\t}\n\t}\n\treturn y")
eq("wave_pulse_block","f, p, w float64","[3]float32",
"\to := oscillator.New(48000)\n\to.SetFrequency(f)\n\to.SetPhase(p)\n\tb := make([]float32, 3)\n\to.ProcessPulse(b, w)\n\treturn [3]float32{b[0], b[1], b[2]}",
"\to := oscillator.New(48000)\n\to.SetFrequency(f)\n\to.SetPhase(p)\n\ta := o.Pulse(w)\n\tb := o.Pulse(w)\n\treturn [3]float32{a, b, o.Pulse(w)}")
eq("wave_phase","p float64","(float32, float32)",
"\to := oscillator.New(8)\n\to.SetFrequency(1)\n\to.Saw()\n\to.SetPhase(p)\n\ta := o.Saw()\n\to.Reset()\n\treturn a, o.Saw()",
"\treturn float32(zzSaw(zzTurn(p))), -1")
eq("wave_shared","","[6]float32",
"\to := oscillator.New(8)\n\to.SetFrequency(1)\n\ta := o.Saw()\n\tb := o.Sine()\n\tc := o.Triangle()\n\to.SetFrequency(2)\n\td := o.Square()\n\te := o.Pulse(0.7)\n\treturn [6]float32{a, b, c, d, e, o.Saw()}",
"\treturn [6]float32{-1, float32(zzSin(0.125)), float32(zzTri(0.25)), 1, 1, float32(zzSaw(0.875))}")
eq("wave_retune","f, g float64","[3]float32",
"\tif !(f > 0 && f < 0.25 && g > 0 && g < 0.25) {\n\t\treturn [3]float32{}\n\t}\n\to := oscillator.New(1)\n\to.SetFrequency(f)\n\ta := o.Saw()\n\to.SetFrequency(g)\n\tb := o.Saw()\n\treturn [3]float32{a, b, o.Saw()}",
"\tif !(f > 0 && f < 0.25 && g > 0 && g < 0.25) {\n\t\treturn [3]float32{}\n\t}\n\treturn [3]float32{-1, float32(zzSaw(f)), float32(zzSaw(f + g))}")
# band limited
for sr,f,n in ((16,2,"four"),(16,1,"eight"),(16,3,"two"),(8,4,"one"),(16,6,"odd"),(32,5,"three")):
    eq(f"blit_{n}","","[12]float32",
f"\tb := oscillator.NewBLIT({sr})\n\tb.SetFrequency({f})\n\tvar y [12]float32\n\tfor i := range y {{\n\t\ty[i] = b.BLIT()\n\t}}\n\treturn y",
f"\t// the partials up to half the rate, all as strong\n\tm := {sr} / (2 * {f})\n\tvar y [12]float32\n\tfor i := range y {{\n\t\ts := 1.0\n\t\tfor k := 1; k <= m; k++ {{\n\t\t\ts += 2 * math.Cos(2*math.Pi*zzTurn(float64(k*i)*{f}/{sr}))\n\t\t}}\n\t\ty[i] = float32(s / float64(2*m+1))\n\t}}\n\treturn y")
eq("blit_saw","","[6]float32",
"\ts := oscillator.NewBandLimitedSaw(16)\n\ts.SetFrequency(2)\n\tb := make([]float32, 5)\n\ts.Process(b)\n\treturn [6]float32{b[0], b[1], b[2], b[3], b[4], s.Next()}",
"\t// the impulses less their mean, summed with a leak, as high as the naive wave\n\tb := oscillator.NewBLIT(16)\n\tb.SetFrequency(2)\n\tvar y [6]float32\n\tsum := -0.5\n\tfor i := range y {\n\t\tsum = sum*0.999 + float64(b.BLIT()) - 1.0/9\n\t\ty[i] = float32(-sum * 2 * 9 / 8)\n\t}\n\treturn y")
# ADSR
SR="const sr = 1\n"
eq("adsr_stages","s float64","([6]envelope.Stage, [6]float32)",
"\tif !(s >= 0 && s <= 0.9) {\n\t\treturn [6]envelope.Stage{}, [6]float32{}\n\t}\n\te := envelope.New(1)\n\te.SetADSR(0.001, 0.001, s, 0.001)\n\tvar g [6]envelope.Stage\n\tvar y [6]float32\n\tg[0] = e.GetStage()\n\te.Trigger()\n\tfor i := 0; i < 4; i++ {\n\t\ty[i] = e.Next()\n\t\tg[i+1] = e.GetStage()\n\t}\n\te.Release()\n\ty[4] = e.Next()\n\tg[5] = e.GetStage()\n\ty[5] = e.Next()\n\treturn g, y",
"\tif !(s >= 0 && s <= 0.9) {\n\t\treturn [6]envelope.Stage{}, [6]float32{}\n\t}\n\treturn [6]envelope.Stage{envelope.StageIdle, envelope.StageDecay, envelope.StageSustain, envelope.StageSustain, envelope.StageSustain, envelope.StageIdle}, [6]float32{1, float32(s), float32(s), float32(s), 0, 0}")
eq("adsr_attack","a, sr float64","([3]float32, envelope.Stage)",
"\te := envelope.New(sr)\n\te.SetAttack(a)\n\te.Trigger()\n\treturn [3]float32{e.Next(), e.Next(), e.Next()}, e.GetStage()",
"""	c := zzKeep(a, 0.001, sr)
	y := [3]float64{1 - c, 1 - c*c, 1 - c*c*c}
	d := zzKeep(0.1, 0.001, sr)
	switch {
	case y[0] >= 0.999:
		// at the top, on the way down to the sustain level
		y[0] = 1
		y[1] = 0.7 + 0.3*d
		if y[1] <= 0.701 {
			return [3]float32{1, 0.7, 0.7}, envelope.StageSustain
		}
		y[2] = 0.7 + 0.3*d*d
		if y[2] <= 0.701 {
			return [3]float32{1, float32(y[1]), 0.7}, envelope.StageSustain
		}
		return [3]float32{1, float32(y[1]), float32(y[2])}, envelope.StageDecay
	case y[1] >= 0.999:
		y[2] = 0.7 + 0.3*d
		if y[2] <= 0.701 {
			return [3]float32{float32(y[0]), 1, 0.7}, envelope.StageSustain
		}
		return [3]float32{float32(y[0]), 1, float32(y[2])}, envelope.StageDecay
	case y[2] >= 0.999:
		return [3]float32{float32(y[0]), float32(y[1]), 1}, envelope.StageDecay
	}
	return [3]float32{float32(y[0]), float32(y[1]), float32(y[2])}, envelope.StageAttack""")
eq("adsr_decay","d, s float64","([3]float32, envelope.Stage)",
"\te := envelope.New(1)\n\te.SetAttack(0.001)\n\te.SetDecay(d)\n\te.SetSustain(s)\n\te.Trigger()\n\te.Next()\n\treturn [3]float32{e.Next(), e.Next(), e.Next()}, e.GetStage()",
"""	c := zzKeep(d, 0.001, 1)
	s = zzClip(s, 0, 1)
	var y [3]float32
	v := 1.0
	for i := range y {
		v = s + (v-s)*c
		if v <= s+0.001 {
			for ; i < 3; i++ {
				y[i] = float32(s)
			}
			return y, envelope.StageSustain
		}
		y[i] = float32(v)
	}
	return y, envelope.StageDecay""")
eq("adsr_release","r, s float64","([3]float32, envelope.Stage, bool)",
"\tif !(s >= 0 && s <= 1) {\n\t\treturn [3]float32{}, 0, false\n\t}\n\te := envelope.New(1)\n\te.SetADSR(0.001, 0.001, s, r)\n\te.Trigger()\n\te.Next()\n\te.Next()\n\te.Release()\n\treturn [3]float32{e.Next(), e.Next(), e.Next()}, e.GetStage(), e.IsActive()",
"""	if !(s >= 0 && s <= 1) {
		return [3]float32{}, 0, false
	}
	c := zzKeep(r, 0.001, 1)
	var y [3]float32
	v := s
	for i := range y {
		v *= c
		if v <= 0.001 {
			return y, envelope.StageIdle, false
		}
		y[i] = float32(v)
	}
	return y, envelope.StageRelease, true""")
eq("adsr_retrigger","a, r float64","([3]float32, envelope.Stage)",
"\tif !(a >= 1 && a <= 50 && r >= 1 && r <= 50) {\n\t\treturn [3]float32{}, 0\n\t}\n\te := envelope.New(1)\n\te.SetADSR(0.001, 0.001, 0.5, r)\n\te.Trigger()\n\te.Next()\n\te.Next()\n\te.Release()\n\te.SetAttack(a)\n\tx := e.Next()\n\te.Trigger()\n\ty := e.Next()\n\te.Release()\n\treturn [3]float32{x, y, e.Next()}, e.GetStage()",
"""	if !(a >= 1 && a <= 50 && r >= 1 && r <= 50) {
		return [3]float32{}, 0
	}
	up, down := math.Exp(-1/a), math.Exp(-1/r)
	// from where it is, up again, and down again
	x := 0.5 * down
	y := 1 - (1-x)*up
	z := y * down
	return [3]float32{float32(x), float32(y), float32(z)}, envelope.StageRelease""")
eq("adsr_moved","s float64","([2]float32, envelope.Stage)",
"\tif !(s >= 0 && s <= 0.5) {\n\t\treturn [2]float32{}, 0\n\t}\n\te := envelope.New(1)\n\te.SetADSR(0.001, 10, 0.6, 1)\n\te.Trigger()\n\te.Next()\n\te.SetSustain(s)\n\treturn [2]float32{e.Next(), e.Next()}, e.GetStage()",
"""	if !(s >= 0 && s <= 0.5) {
		return [2]float32{}, 0
	}
	c := math.Exp(-0.1)
	return [2]float32{float32(s + (1-s)*c), float32(s + (1-s)*c*c)}, envelope.StageDecay""")
eq("adsr_held","s, q float64","[3]float32",
"\te := envelope.New(1)\n\te.SetADSR(0.001, 0.001, s, 1)\n\te.Trigger()\n\te.Next()\n\te.Next()\n\tx := e.Next()\n\te.SetSustain(q)\n\treturn [3]float32{x, e.Next(), e.Next()}",
"\tx, y := float32(zzClip(s, 0, 1)), float32(zzClip(q, 0, 1))\n\treturn [3]float32{x, y, y}")
eq("adsr_idle","a, d, s, r, sr float64","(float32, float32, float32, bool, envelope.Stage)",
"\te := envelope.New(sr)\n\te.SetADSR(a, d, s, r)\n\tx := e.Next()\n\te.Release()\n\ty := e.Next()\n\te.Trigger()\n\ton := e.IsActive()\n\te.Next()\n\te.Reset()\n\treturn x, y, e.Next(), on, e.GetStage()",
"\treturn 0, 0, 0, true, envelope.StageIdle")
eq("adsr_set","a, d, s, r, sr float64","*envelope.ADSR",
"\te := envelope.New(sr)\n\te.SetADSR(a, d, s, r)\n\treturn e",
"\te := envelope.New(sr)\n\te.SetRelease(r)\n\te.SetSustain(s)\n\te.SetDecay(d)\n\te.SetAttack(a)\n\treturn e")
eq("adsr_times","e *envelope.ADSR, a, d, r float64","float32",
"\te.SetAttack(a)\n\te.SetDecay(d)\n\te.SetRelease(r)\n\treturn e.Next()",
"\te.SetAttack(math.Max(a, 0.001))\n\te.SetDecay(math.Max(d, 0.001))\n\te.SetRelease(math.Max(r, 0.001))\n\treturn e.Next()")
for t in ("ADSR","AR"):
    eq(f"{t.lower()}_block",f"e *envelope.{t}","[3]float32",
"\tb := make([]float32, 3)\n\te.Process(b)\n\treturn [3]float32{b[0], b[1], b[2]}",
"\treturn [3]float32{e.Next(), e.Next(), e.Next()}")
    eq(f"{t.lower()}_times_block",f"e *envelope.{t}, x, y float32","(float32, float32)",
"\tb := []float32{x, y}\n\te.ProcessMultiply(b)\n\treturn b[0], b[1]",
"\tp := e.Next()\n\tq := e.Next()\n\treturn p * x, q * y")
eq("ar_way","a, r, sr float64","[4]float32",
"\te := envelope.NewAR(sr)\n\te.SetAttack(a)\n\te.SetRelease(r)\n\te.Trigger()\n\tx := e.Next()\n\ty := e.Next()\n\te.Release()\n\tz := e.Next()\n\te.Trigger()\n\treturn [4]float32{x, y, z, e.Next()}",
"""	up, down := zzKeep(a, 0.001, sr), zzKeep(r, 0.001, sr)
	y := 1 - up*up
	z := y * down
	return [4]float32{float32(1 - up), float32(y), float32(z), float32(1 - (1-z)*up)}""")
eq("ar_rest","a, r, sr float64","(float32, float32)",
"\te := envelope.NewAR(sr)\n\te.SetAttack(a)\n\te.SetRelease(r)\n\tx := e.Next()\n\te.Release()\n\treturn x, e.Next()",
"\treturn 0, 0")
# follower
eq("follow_level","a, r, sr float64, x, y float32","[2]float32",
"\tf := envelope.NewFollower(sr)\n\tf.SetAttack(a)\n\tf.SetRelease(r)\n\treturn [2]float32{f.Follow(x), f.Follow(y)}",
"""	up, down := zzKeep(a, 0.0001, sr), zzKeep(r, 0.0001, sr)
	step := func(v, level float64) float64 {
		c := down
		if level > v {
			c = up
		}
		return level + (v-level)*c
	}
	v := step(0, math.Abs(float64(x)))
	w := step(v, math.Abs(float64(y)))
	return [2]float32{float32(v), float32(w)}""")
eq("follow_block","f *envelope.Follower, x, y float32","[2]float32",
"\tb := make([]float32, 2)\n\tf.Process([]float32{x, y}, b)\n\treturn [2]float32{b[0], b[1]}",
"\treturn [2]float32{f.Follow(x), f.Follow(y)}")
eq("follow_sign","f *envelope.Follower, x float32","float32",
"\treturn f.Follow(-x)","\treturn f.Follow(x)")
# LFO
for w,z in (("Sine","zzSin"),("Triangle","zzTri"),("Square","zzSquare"),("Sawtooth","zzSaw")):
    for f,n in ((1,"slow"),(5,"fast")):
        eq(f"lfo_{w.lower()}_{n}","d, o float64","[10]float64",
f"\tl := modulation.NewLFO(8)\n\tl.SetFrequency({f})\n\tl.SetWaveform(modulation.Waveform{w})\n\tl.SetDepth(d)\n\tl.SetOffset(o)\n\tvar y [10]float64\n\tfor i := range y {{\n\t\ty[i] = l.Process()\n\t}}\n\treturn y",
f"\td, o = zzClip(d, 0, 1), zzClip(o, -1, 1)\n\tvar y [10]float64\n\tfor i := range y {{\n\t\ty[i] = zzClip({z}(zzTurn(float64(i)*{f}/8))*d+o, -1, 1)\n\t}}\n\treturn y")
eq("lfo_new","sr float64","*modulation.LFO",
"\treturn modulation.NewLFO(sr)",
"\tl := modulation.NewLFO(sr)\n\tl.SetFrequency(1)\n\tl.SetDepth(1)\n\tl.SetOffset(0)\n\tl.SetPhase(0)\n\tl.SetWaveform(modulation.WaveformSine)\n\treturn l")
eq("lfo_speed","f float64","[3]float64",
"\tl := modulation.NewLFO(1000)\n\tl.SetFrequency(f)\n\ta := l.GetPhase()\n\tl.Process()\n\tb := l.GetPhase()\n\tl.Process()\n\treturn [3]float64{a, b, l.GetPhase()}",
"\tf = zzClip(f, 0.01, 20)\n\treturn [3]float64{0, f / 1000, 2 * f / 1000}")
eq("lfo_turn","","[10]float64",
"\tl := modulation.NewLFO(8)\n\tl.SetFrequency(3)\n\tvar y [10]float64\n\tfor i := range y {\n\t\ty[i] = l.GetPhase()\n\t\tl.Process()\n\t}\n\treturn y",
"\tvar y [10]float64\n\tfor i := range y {\n\t\ty[i] = zzTurn(float64(i) * 3 / 8)\n\t}\n\treturn y")
eq("lfo_sync","p float64","[4]float64",
"\tif !(p >= 0 && p <= 0.9) {\n\t\treturn [4]float64{}\n\t}\n\tl := modulation.NewLFO(64)\n\tl.Process()\n\tl.Sync()\n\ta := l.GetPhase()\n\tl.EnableSync(true, p)\n\tl.Process()\n\tb := l.GetPhase()\n\tl.Sync()\n\tc := l.GetPhase()\n\tl.Process()\n\tl.EnableSync(false, 0)\n\tl.Sync()\n\treturn [4]float64{a, b, c, l.GetPhase()}",
"\tif !(p >= 0 && p <= 0.9) {\n\t\treturn [4]float64{}\n\t}\n\treturn [4]float64{1.0 / 64, 2.0 / 64, p, p + 1.0/64}")
eq("lfo_phase","p float64","(float64, float64)",
"\tl := modulation.NewLFO(64)\n\tl.SetPhase(p)\n\ta := l.GetPhase()\n\tl.Reset()\n\treturn a, l.GetPhase()",
"\treturn zzTurn(p), 0")
eq("lfo_block","l *modulation.LFO","[3]float64",
"\tb := make([]float64, 3)\n\tl.ProcessBuffer(b)\n\treturn [3]float64{b[0], b[1], b[2]}",
"\treturn [3]float64{l.Process(), l.Process(), l.Process()}")
eq("lfo_random","","(bool, bool, bool)",
"""	l := modulation.NewLFO(16)
	l.SetFrequency(4)
	l.SetWaveform(modulation.WaveformRandom)
	var y [16]float64
	for i := range y {
		y[i] = l.Process()
	}
	held, moved, inside := true, true, true
	for i := range y {
		if i%4 != 0 && y[i] != y[i-1] {
			held = false
		}
		if i%4 == 0 && i > 0 && y[i] == y[i-1] {
			moved = false
		}
		if y[i] < -1 || y[i] > 1 {
			inside = false
		}
	}
	return held, moved, inside""","\treturn true, true, true")
# noise
N4="[5]float32"
def noise(t): return f"\tn := zzNoise(utility.{t}, seed)\n\tvar y [5]float32\n\tfor i := range y {{\n\t\ty[i] = n.Next()\n\t}}\n\treturn y"
eq("noise_white","seed int64",N4,noise("WhiteNoise"),"\tw := zzSeeded(seed)\n\tvar y [5]float32\n\tfor i := range y {\n\t\ty[i] = w.next()\n\t}\n\treturn y")
eq("noise_brown","seed int64",N4,noise("BrownNoise"),"\tw := zzSeeded(seed)\n\tvar y [5]float32\n\tv := 0.0\n\tfor i := range y {\n\t\tv = zzClip((v+float64(w.next())/16)*0.997, -1, 1)\n\t\ty[i] = float32(v)\n\t}\n\treturn y")
eq("noise_blue","seed int64",N4,noise("BlueNoise"),"\tw := zzSeeded(seed)\n\tvar y [5]float32\n\tlast := float32(0)\n\tfor i := range y {\n\t\tx := w.next()\n\t\ty[i] = (x - last) / 2\n\t\tlast = x\n\t}\n\treturn y")
eq("noise_violet","seed int64",N4,noise("VioletNoise"),"\tw := zzSeeded(seed)\n\tvar x [7]float32\n\tvar y [5]float32\n\tfor i := range y {\n\t\tx[i+2] = w.next()\n\t\ty[i] = (x[i+2] - 2*x[i+1] + x[i]) / 8\n\t}\n\treturn y")
eq("noise_pink","seed int64","[9]float32",
"\tn := zzNoise(utility.PinkNoise, seed)\n\tvar y [9]float32\n\tfor i := range y {\n\t\ty[i] = n.Next()\n\t}\n\treturn y",
"""	// the row of each octave is drawn anew half as often as the one below it
	w := zzSeeded(seed)
	var row [4]float32
	var y [9]float32
	for i := range y {
		k := 0
		for ; (i+1)>>k&1 == 0; k++ {
		}
		row[k] = w.next()
		y[i] = float32(zzClip(float64((row[0]+row[1]+row[2]+row[3]+w.next())*0.05), -1, 1))
	}
	return y""")
eq("noise_pink_turn","seed int64","[3]float32",
"\tn := zzNoise(utility.PinkNoise, seed)\n\tfor i := 0; i < 14; i++ {\n\t\tn.Next()\n\t}\n\treturn [3]float32{n.Next(), n.Next(), n.Next()}",
"""	w := zzSeeded(seed)
	var row [5]float32
	var y [3]float32
	for i := 0; i < 17; i++ {
		if i != 15 { // a whole turn draws no row
			k := 0
			for ; (i%16+1)>>k&1 == 0; k++ {
			}
			row[k] = w.next()
		}
		x := float32(zzClip(float64((row[0]+row[1]+row[2]+row[3]+w.next())*0.05), -1, 1))
		if i >= 14 {
			y[i-14] = x
		}
	}
	return y""")
for t in ("White","Pink","Brown","Blue","Violet"):
    eq(f"noise_again_{t.lower()}","seed int64","[4]float32",
f"\tn := zzNoise(utility.{t}Noise, 3)\n\tn.Next()\n\tn.Next()\n\tn.SetSeed(seed)\n\tb := make([]float32, 4)\n\tn.Generate(b)\n\treturn [4]float32{{b[0], b[1], b[2], b[3]}}",
f"\tn := utility.NewNoiseGenerator(utility.WhiteNoise)\n\tn.SetType(utility.{t}Noise)\n\tn.SetSeed(seed)\n\tvar y [4]float32\n\tfor i := range y {{\n\t\ty[i] = n.Next()\n\t}}\n\treturn y")
    eq(f"noise_add_{t.lower()}","seed int64, x, y, g float32","(float32, float32)",
f"\tb := []float32{{x, y}}\n\tzzNoise(utility.{t}Noise, seed).GenerateAdd(b, g)\n\treturn b[0], b[1]",
f"\tn := zzNoise(utility.{t}Noise, seed)\n\tp := n.Next()\n\tq := n.Next()\n\treturn x + g*p, y + g*q")
    out.append(f"func Rng_bip_noise_{t.lower()}(seed int64) (float32, float32, float32) {{\n\tn := zzNoise(utility.{t}Noise, seed)\n\treturn n.Next(), n.Next(), n.Next()\n}}\n")
out.append("func Rng_real_noise_gauss() (float32, float32, float32) {\n\tg := utility.NewGaussianNoise()\n\treturn g.Next(), g.Next(), g.Next()\n}\n")
out.append("func Rng_bip_noise_sample() float32 { return utility.WhiteNoiseSample() }\n")
import subprocess
p='/verif/sa/refs/c15_wave.go.txt'
t=subprocess.run(['gofmt'],input="\n".join(out),capture_output=True,text=True)
print(t.stderr)
open(p,'w').write(t.stdout)
