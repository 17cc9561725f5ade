import subprocess
out=['''// Spectra, windows, correlation and level meters.
package zzvsaref

import (
	"math"

	analysis "github.com/justyntemme/vst3go/pkg/dsp/analysis"
)

// one bin of the discrete Fourier transform of x+iy
func zzDFT(x, y []float64, k int, sign float64) (float64, float64) {
	n := len(x)
	re, im := 0.0, 0.0
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64((i*k)%n) / float64(n)
		c, s := math.Cos(a), math.Sin(a)*sign
		re += x[i]*c - y[i]*s
		im += x[i]*s + y[i]*c
	}
	return re, im
}

func zzWindow(w analysis.WindowFunc, i, size int) float64 {
	p := 2 * math.Pi * float64(i) / float64(size-1)
	switch w {
	case analysis.HannWindow:
		return 0.5 - 0.5*math.Cos(p)
	case analysis.HammingWindow:
		return 0.54 - 0.46*math.Cos(p)
	case analysis.BlackmanWindow:
		return 0.42 - 0.5*math.Cos(p) + 0.08*math.Cos(2*p)
	case analysis.BlackmanHarrisWindow:
		return 0.35875 - 0.48829*math.Cos(p) + 0.14128*math.Cos(2*p) - 0.01168*math.Cos(3*p)
	case analysis.KaiserWindow:
		x := 2*float64(i)/float64(size-1) - 1
		return zzI0(8.6*math.Sqrt(1-x*x)) / zzI0(8.6)
	case analysis.FlatTopWindow:
		return math.Max(0, 0.21557895-0.41663158*math.Cos(p)+0.277263158*math.Cos(2*p)-0.083578947*math.Cos(3*p)+0.006947368*math.Cos(4*p))
	}
	return 1
}

func zzIn(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

// the modified Bessel function of order 0, by its power series
func zzI0(x float64) float64 {
	sum, term := 1.0, 1.0
	for k := 1; k < 36; k++ {
		term = term * (x / 2) / float64(k) * (x / 2) / float64(k)
		sum += term
	}
	return sum
}

func zzDB(x float64) float64 {
	if x > 0 {
		return 20 * math.Log10(x)
	}
	return -math.Inf(1)
}

func zzFloor(x float64) float64 {
	if x > 0 {
		return 20 * math.Log10(x)
	}
	return -120
}

func zzPearson(l, r []float64) float64 {
	n := float64(len(l))
	ml, mr := 0.0, 0.0
	for i := range l {
		ml += l[i]
		mr += r[i]
	}
	ml /= n
	mr /= n
	c, vl, vr := 0.0, 0.0, 0.0
	for i := range l {
		c += (l[i] - ml) * (r[i] - mr)
		vl += (l[i] - ml) * (l[i] - ml)
		vr += (r[i] - mr) * (r[i] - mr)
	}
	if vl == 0 && vr == 0 {
		return 1
	}
	if vl == 0 || vr == 0 {
		return 0
	}
	return math.Max(-1, math.Min(1, c/(math.Sqrt(vl)*math.Sqrt(vr))))
}
''']
A=out.append
L=lambda n: ', '.join(f'x{i}' for i in range(n))
def eq(name,params,ret,lhs,rhs):
    A(f'func Lhs_{name}({params}) {ret} {{\n{lhs}}}\n')
    A(f'func Rhs_{name}({params}) {ret} {{\n{rhs}}}\n')
# --- FFT
for n in (2,4,8):
    h=n//2+1
    eq(f'spectrum_forward_{n}',f'{L(n)} float64',f'([{h}]float64, [{h}]float64)',
f'''	m, p := analysis.NewFFT({n}, analysis.RectangularWindow).Forward([]float64{{{L(n)}}})
	var a, b [{h}]float64
	for i := range a {{
		a[i], b[i] = m[i], p[i]
	}}
	return a, b
''',f'''	x := []float64{{{L(n)}}}
	y := make([]float64, {n})
	var a, b [{h}]float64
	for k := range a {{
		re, im := zzDFT(x, y, k, -1)
		a[k], b[k] = math.Sqrt(re*re+im*im), math.Atan2(im, re)
	}}
	return a, b
''')
    Y=', '.join(f'y{i}' for i in range(n))
    eq(f'spectrum_inverse_{n}',f'{L(n)}, {Y} float64',f'[{n}]float64',
f'''	r := analysis.NewFFT({n}, analysis.RectangularWindow).Inverse([]float64{{{L(n)}}}, []float64{{{Y}}})
	var a [{n}]float64
	for i := range a {{
		a[i] = r[i]
	}}
	return a
''',f'''	x := []float64{{{L(n)}}}
	y := []float64{{{Y}}}
	var a [{n}]float64
	for k := range a {{
		re, _ := zzDFT(x, y, k, 1)
		a[k] = re / {n}
	}}
	return a
''')
    eq(f'spectrum_back_{n}',f'{L(n)} float64',f'[{n}]float64',
f'''	x := []float64{{{L(n)}}}
	y := make([]float64, {n})
	re := make([]float64, {n})
	im := make([]float64, {n})
	for k := range re {{
		re[k], im[k] = zzDFT(x, y, k, -1)
	}}
	r := analysis.NewFFT({n}, analysis.HannWindow).Inverse(re, im)
	var a [{n}]float64
	for i := range a {{
		a[i] = r[i]
	}}
	return a
''',f'''	return [{n}]float64{{{L(n)}}}
''')
# reuse, short input
eq('spectrum_again','x0, x1, x2, x3, y0, y1 float64','[3]float64',
'''	f := analysis.NewFFT(4, analysis.RectangularWindow)
	f.Forward([]float64{x0, x1, x2, x3})
	m, _ := f.Forward([]float64{y0, y1})
	return [3]float64{m[0], m[1], m[2]}
''','''	x := []float64{y0, y1, 0, 0}
	y := make([]float64, 4)
	var a [3]float64
	for k := range a {
		re, im := zzDFT(x, y, k, -1)
		a[k] = math.Sqrt(re*re + im*im)
	}
	return a
''')
eq('spectrum_db','x0, x1 float64','[2]float64',
'''	f := analysis.NewFFT(2, analysis.RectangularWindow)
	f.Forward([]float64{x0, x1})
	d := f.GetMagnitudeDB()
	return [2]float64{d[0], d[1]}
''','''	s, d := x0+x1, x0-x1
	return [2]float64{zzFloor(math.Sqrt(s * s)), zzFloor(math.Sqrt(d * d))}
''')
eq('spectrum_bin','b int, sr float64','float64',
'''	return analysis.NewFFT(8, analysis.RectangularWindow).GetFrequencyBin(b, sr)
''','''	return float64(b) * sr / 8
''')
eq('spectrum_power','x, y float64','[2]float64',
'''	p := analysis.PowerSpectrum([]float64{x, y})
	return [2]float64{p[0], p[1]}
''','''	return [2]float64{x * x, y * y}
''')
# --- windows: an impulse at each place has the window's value in every bin
W=['Rectangular','Hann','Hamming','Blackman','BlackmanHarris','FlatTop']
for w in W+['Kaiser']:
  for n in (4,8):
    eq(f'window_{w.lower()}_{n}','','bool' if True else '',
f'''	ok := true
	for i := 0; i < {n}; i++ {{
		x := make([]float64, {n})
		x[i] = 1
		m, _ := analysis.NewFFT({n}, analysis.{w}Window).Forward(x)
		d := m[0] - zzWindow(analysis.{w}Window, i, {n})
		if d > 1e-6 || d < -1e-6 {{
			ok = false
		}}
	}}
	return ok
''','''	return true
''')
eq('window_hann_apply','x0, x1, x2, x3, x4 float64','[5]float64',
'''	r := analysis.ApplyHannWindow([]float64{x0, x1, x2, x3, x4})
	return [5]float64{r[0], r[1], r[2], r[3], r[4]}
''','''	return [5]float64{0, x1 / 2, x2, x3 / 2, 0}
''')
eq('window_input','x0, x1, x2, x3 float64','[3]float64',
'''	m, _ := analysis.NewFFT(4, analysis.HannWindow).Forward([]float64{x0, x1, x2, x3})
	return [3]float64{m[0], m[1], m[2]}
''','''	w := zzWindow(analysis.HannWindow, 1, 4)
	s, d := (x1+x2)*w, (x2-x1)*w
	return [3]float64{math.Sqrt(s * s), math.Sqrt(x2*w*(x2*w) + x1*w*(x1*w)), math.Sqrt(d * d)}
''')
# --- cross correlation
for n in (1,2,3,4):
    Y=', '.join(f'y{i}' for i in range(n))
    eq(f'lag_{n}',f'{L(n)}, {Y} float64',f'[{2*n-1}]float64',
f'''	r := analysis.CrossCorrelation([]float64{{{L(n)}}}, []float64{{{Y}}})
	var o [{2*n-1}]float64
	for i := range o {{
		o[i] = r[i]
	}}
	return o
''',f'''	a := []float64{{{L(n)}}}
	b := []float64{{{Y}}}
	var o [{2*n-1}]float64
	for k := range o {{
		for i := 0; i < {n}; i++ {{
			j := i + k - {n-1}
			if j >= 0 && j < {n} {{
				o[k] += a[i] * b[j]
			}}
		}}
	}}
	return o
''')
# --- peak meter
eq('peak_block','x, y, z float64','[4]float64',
'''	p := analysis.NewPeakMeter(100)
	p.Process([]float64{x, y, z})
	return [4]float64{p.GetPeak(), p.GetHold(), p.GetPeakDB(), p.GetHoldDB()}
''','''	m := math.Max(math.Max(math.Abs(x), math.Abs(y)), math.Abs(z))
	return [4]float64{m, m, zzDB(m), zzDB(m)}
''')
for d in (20,6):
  eq(f'peak_decay_{d}','x, y, z float64','[3]float64',
f'''	p := analysis.NewPeakMeter(64)
	p.SetDecayRate({d})
	p.Process([]float64{{x}})
	p.Process([]float64{{y, 0, 0, 0}})
	a := p.GetPeak()
	p.Process([]float64{{z}})
	return [3]float64{{a, p.GetPeak(), p.GetHold()}}
''',f'''	// so many dB in a second, 64 samples
	down := func(p float64, n float64) float64 {{ return p * math.Exp(-{d}.0/20*math.Log(10)*n/64) }}
	a := math.Max(down(math.Abs(x), 4), math.Abs(y))
	b := math.Max(down(a, 1), math.Abs(z))
	return [3]float64{{a, b, math.Max(math.Max(math.Abs(x), math.Abs(y)), math.Abs(z))}}
''')
eq('peak_hold','x float64','[4]float64',
'''	if !(x >= 1 && x <= 8) {
		return [4]float64{}
	}
	p := analysis.NewPeakMeter(64)
	p.SetHoldTime(0.0625)
	p.Process([]float64{x})
	p.Process([]float64{0, 0})
	a := p.GetHold()
	p.Process([]float64{0})
	b := p.GetHold()
	p.Process([]float64{0})
	c := p.GetHold()
	return [4]float64{a, b, c, p.GetPeak() - c}
''','''	if !(x >= 1 && x <= 8) {
		return [4]float64{}
	}
	d, n := 20.0, 20.0
	d = d / 64 / n * math.Log(10)
	return [4]float64{x, x, x * math.Exp(-d*2) * math.Exp(-d*1) * math.Exp(-d*1), 0}
''')
eq('peak_reset','x, y float64','[2]float64',
'''	p := analysis.NewPeakMeter(64)
	p.Process([]float64{x})
	p.Reset()
	p.Process([]float64{y})
	return [2]float64{p.GetPeak(), p.GetHold()}
''','''	return [2]float64{math.Abs(y), math.Abs(y)}
''')
# --- RMS
for n in (1,2,3):
    eq(f'level_window_{n}','x, y, z, u float64','[5]float64',
f'''	m := analysis.NewRMSMeter({n})
	o := [5]float64{{m.GetRMS()}}
	for i, v := range []float64{{x, y, z, u}} {{
		m.Process([]float64{{v}})
		o[i+1] = m.GetRMS()
	}}
	return o
''',f'''	in := []float64{{x, y, z, u}}
	var o [5]float64
	for i := range in {{
		s, c := 0.0, 0
		for j := i; j >= 0 && j > i-{n}; j-- {{
			s += in[j] * in[j]
			c++
		}}
		o[i+1] = math.Sqrt(s / float64(c))
	}}
	return o
''')
eq('level_cut','x, y, z, u float64','float64',
'''	m := analysis.NewRMSMeter(3)
	m.Process([]float64{x, y, z, u})
	return m.GetRMSDB()
''','''	m := analysis.NewRMSMeter(3)
	m.Process([]float64{x})
	m.Process([]float64{y, z})
	m.Process([]float64{u})
	return m.GetRMSDB()
''')
eq('level_db','x, y float64','[2]float64',
'''	m := analysis.NewRMSMeter(2)
	a := m.GetRMSDB()
	m.Process([]float64{x, y})
	return [2]float64{a, m.GetRMSDB()}
''','''	return [2]float64{-math.Inf(1), zzDB(math.Sqrt((x*x + y*y) / 2))}
''')
eq('level_reset','x, y, z float64','float64',
'''	m := analysis.NewRMSMeter(2)
	m.Process([]float64{x, y, z})
	m.Reset()
	m.Process([]float64{x})
	return m.GetRMS()
''','''	return math.Sqrt(x * x)
''')
A('''func Rng_pos_level(x, y, z float64) (float64, float64) {
	if !(x >= -10 && x <= 10 && y >= -10 && y <= 10 && z >= -10 && z <= 10) {
		return 0, 0
	}
	m := analysis.NewRMSMeter(2)
	m.Process([]float64{x})
	a := m.GetRMS()
	m.Process([]float64{y, z})
	return a, m.GetRMS()
}
''')
# --- correlation
eq('stereo_correlation','a, b, c, d, e, f float64','[2]float64',
'''	m := analysis.NewCorrelationMeter(3, 100)
	m.SetAveraging(0)
	m.Process([]float64{a, b}, []float64{d, e})
	o := m.GetCorrelation()
	m.Process([]float64{c}, []float64{f})
	return [2]float64{o, m.GetCorrelation()}
''','''	return [2]float64{0, zzPearson([]float64{a, b, c}, []float64{d, e, f})}
''')
eq('stereo_correlation_slides','a, b, c, d, e, f float64','float64',
'''	m := analysis.NewCorrelationMeter(2, 100)
	m.SetAveraging(0)
	m.Process([]float64{a, b, c}, []float64{d, e, f})
	return m.GetCorrelation()
''','''	return zzPearson([]float64{b, c}, []float64{e, f})
''')
eq('stereo_correlation_average','a, b, c, d, w float64','[3]float64',
'''	m := analysis.NewCorrelationMeter(2, 100)
	m.SetAveraging(w)
	m.Process([]float64{a, b}, []float64{c, d})
	x := m.GetCorrelation()
	m.Process([]float64{a, b}, []float64{c, d})
	return [3]float64{x, m.GetCorrelation(), m.GetMonoCompatibility()}
''','''	k := 0.9
	if w >= 0 && w <= 1 {
		k = w
	}
	c = zzPearson([]float64{a, b}, []float64{c, d})
	x := c * (1 - k)
	y := x*k + c*(1-k)
	return [3]float64{x, y, (y + 1) / 2}
''')
eq('stereo_correlation_unequal','a, b, c, d, e float64','float64',
'''	m := analysis.NewCorrelationMeter(2, 100)
	m.SetAveraging(0)
	m.Process([]float64{a, b}, []float64{c, d})
	m.Process([]float64{e, e}, []float64{e})
	m.Process([]float64{e}, []float64{})
	return m.GetCorrelation()
''','''	return zzPearson([]float64{a, b}, []float64{c, d})
''')
for nm,r,c in (('mono','1, 2, 4','1'),('flipped','-1, -2, -4','-1'),('louder','3, 5, 9','1'),('other','2, -1, 0','-0.5'),('still','7, 7, 7','0')):
  eq(f'stereo_correlation_{nm}','','bool',
f'''	m := analysis.NewCorrelationMeter(3, 100)
	m.SetAveraging(0)
	m.Process([]float64{{1, 2, 4}}, []float64{{{r}}})
	d := m.GetCorrelation() - ({c})
	return d < 0.001 && d > -0.001
''','''	return true
''')
eq('stereo_phase','','[7]analysis.PhaseStatus',
'''	var o [7]analysis.PhaseStatus
	for i, w := range []float64{0, 0.05, 0.25, 0.75, 0.9375} {
		m := analysis.NewCorrelationMeter(2, 100)
		m.SetAveraging(w)
		m.Process([]float64{1, 2}, []float64{1, 2})
		o[i] = m.GetPhaseStatus()
	}
	for i, w := range []float64{0, 0.25} {
		m := analysis.NewCorrelationMeter(2, 100)
		m.SetAveraging(w)
		m.Process([]float64{1, 2}, []float64{2, 1})
		o[i+5] = m.GetPhaseStatus()
	}
	return o
''','''	return [7]analysis.PhaseStatus{analysis.PhaseInPhase, analysis.PhaseInPhase, analysis.PhaseMostlyInPhase, analysis.PhasePartiallyCorrelated, analysis.PhasePartiallyCorrelated, analysis.PhaseOutOfPhase, analysis.PhaseMostlyOutOfPhase}
''')
# --- balance, width
eq('stereo_balance','a, b, c, d float64','[3]float64',
'''	m := analysis.NewBalanceMeter(2)
	x := m.GetBalance()
	m.Process([]float64{a, b}, []float64{c, d})
	return [3]float64{x, m.GetBalance(), m.GetBalanceDB()}
''','''	l, r := (a*a+b*b)/2*(1-0.95), (c*c+d*d)/2*(1-0.95)
	x, y := 0.0, 0.0
	if l+r > 0 {
		x = (r - l) / (l + r)
	}
	if l > 0 && r > 0 {
		y = 10 * math.Log10(r/l)
	}
	return [3]float64{0, x, y}
''')
eq('stereo_balance_average','a, b, c, d float64','float64',
'''	m := analysis.NewBalanceMeter(2)
	m.Process([]float64{a}, []float64{b})
	m.Process([]float64{c}, []float64{d})
	return m.GetBalance()
''','''	l, r := a*a*(1-0.95)*0.95+c*c*(1-0.95), b*b*(1-0.95)*0.95+d*d*(1-0.95)
	if l+r > 0 {
		return (r - l) / (l + r)
	}
	return 0
''')
eq('stereo_balance_sides','a, b float64','[2]float64',
'''	if math.Abs(a) < 1 || math.Abs(b) < 1 {
		return [2]float64{}
	}
	m := analysis.NewBalanceMeter(2)
	m.Process([]float64{a}, []float64{0})
	n := analysis.NewBalanceMeter(2)
	n.Process([]float64{0}, []float64{b})
	return [2]float64{m.GetBalance(), n.GetBalance()}
''','''	if math.Abs(a) < 1 || math.Abs(b) < 1 {
		return [2]float64{}
	}
	return [2]float64{-1, 1}
''')
eq('stereo_width','a, b, c, d float64','[2]float64',
'''	m := analysis.NewStereoWidthMeter(2)
	m.Process([]float64{a, b}, []float64{c, d})
	return [2]float64{m.GetWidth(), m.GetWidthDB()}
''','''	mid := ((a+c)/2*((a+c)/2) + (b+d)/2*((b+d)/2)) / 2 * (1 - 0.95)
	side := ((a-c)/2*((a-c)/2) + (b-d)/2*((b-d)/2)) / 2 * (1 - 0.95)
	w, db := 0.0, -math.Inf(1)
	if mid+side > 0 {
		w = math.Sqrt(side / mid)
	}
	if mid > 0 && side > 0 {
		db = 10 * math.Log10(side/mid)
	}
	return [2]float64{w, db}
''')
eq('stereo_field','a, b, c, d float64','[5]float64',
'''	s := analysis.NewStereoFieldAnalyzer(2, 100)
	s.Process([]float64{a, b}, []float64{c, d})
	x := s.GetAnalysis()
	return [5]float64{x.Correlation, x.MonoCompatibility, x.Balance, x.Width, x.WidthDB}
''','''	p := analysis.NewCorrelationMeter(2, 100)
	p.Process([]float64{a, b}, []float64{c, d})
	q := analysis.NewBalanceMeter(2)
	q.Process([]float64{a, b}, []float64{c, d})
	r := analysis.NewStereoWidthMeter(2)
	r.Process([]float64{a, b}, []float64{c, d})
	return [5]float64{p.GetCorrelation(), p.GetMonoCompatibility(), q.GetBalance(), r.GetWidth(), r.GetWidthDB()}
''')
# --- analyzer
FR='''	frame := func(a, b, c, d float64) []float64 {
		x := []float64{a, b, c, d}
		y := make([]float64, 4)
		o := make([]float64, 3)
		for k := range o {
			re, im := zzDFT(x, y, k, -1)
			o[k] = math.Sqrt(re*re + im*im)
		}
		return o
	}
'''
NEW='	s := analysis.NewSpectrumAnalyzer(4, 64, analysis.RectangularWindow)\n'
RET='	r := s.GetSpectrum()\n	return [3]float64{r[0], r[1], r[2]}\n'
six='[]float64{x0, x1, x2, x3, x4, x5}'
eq('frame_hop','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.Process({six})\n'+RET,
FR+'	r := frame(x2, x3, x4, x5)\n	return [3]float64{r[0], r[1], r[2]}\n')
eq('frame_hop_1','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.SetHopSize(1)\n	s.SetHopSize(5)\n	s.SetHopSize(0)\n	s.Process({six}[:5])\n'+RET,
FR+'	r := frame(x1, x2, x3, x4)\n	return [3]float64{r[0], r[1], r[2]}\n')
eq('frame_hop_full','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.SetHopSize(4)\n	s.Process({six})\n	s.Process([]float64{{x1}})\n'+RET,
FR+'	r := frame(x0, x1, x2, x3)\n	return [3]float64{r[0], r[1], r[2]}\n')
eq('frame_ready','x0, x1, x2, x3, x4, x5 float64','[4]bool',NEW+f'''	in := {six}
	return [4]bool{{s.Process(in[:3]), s.Process(in[3:4]), s.Process(in[4:5]), s.Process(in[5:])}}
''','	return [4]bool{false, true, false, true}\n')
eq('frame_cut','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.Process({six})\n'+RET,
NEW+f'	for _, v := range {six} {{\n		s.Process([]float64{{v}})\n	}}\n'+RET)
eq('frame_exponential','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.SetAveraging(analysis.ExponentialAveraging, 2)\n	s.SetSmoothing(0.75)\n	s.SetSmoothing(2)\n	s.Process({six})\n'+RET,
FR+'''	a, b := frame(x0, x1, x2, x3), frame(x2, x3, x4, x5)
	var o [3]float64
	for i := range o {
		o[i] = a[i]*0.25*0.75 + b[i]*0.25
	}
	return o
''')
eq('frame_linear','x0, x1, x2, x3, x4, x5 float64','([3]float64, [3]float64)',NEW+f'	s.SetAveraging(analysis.LinearAveraging, 2)\n	in := {six}\n	s.Process(in[:4])\n	p := s.GetSpectrum()\n	s.Process(in[4:])\n	r := s.GetSpectrum()\n	return [3]float64{{p[0], p[1], p[2]}}, [3]float64{{r[0], r[1], r[2]}}\n',
FR+'''	a, b := frame(x0, x1, x2, x3), frame(x2, x3, x4, x5)
	var o, p [3]float64
	for i := range o {
		p[i] = a[i]
		o[i] = (a[i] + b[i]) / 2
	}
	return p, o
''')
eq('frame_linear_slides','x0, x1, x2, x3, x4, x5, x6, x7 float64','[3]float64',NEW+f'	s.SetAveraging(analysis.LinearAveraging, 2)\n	s.Process([]float64{{x0, x1, x2, x3, x4, x5, x6, x7}})\n'+RET,
FR+'''	a, b := frame(x2, x3, x4, x5), frame(x4, x5, x6, x7)
	var o [3]float64
	for i := range o {
		o[i] = (a[i] + b[i]) / 2
	}
	return o
''')
eq('frame_hold','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.SetAveraging(analysis.PeakHold, 2)\n	s.Process({six})\n'+RET,
FR+'''	a, b := frame(x0, x1, x2, x3), frame(x2, x3, x4, x5)
	var o [3]float64
	for i := range o {
		o[i] = math.Max(a[i], b[i])
	}
	return o
''')
eq('frame_reset','x0, x1, x2, x3, x4, x5 float64','[3]float64',NEW+f'	s.SetAveraging(analysis.LinearAveraging, 2)\n	in := {six}\n	s.Process(in[:5])\n	s.Reset()\n	s.Process(in[2:])\n'+RET,
FR+'	r := frame(x2, x3, x4, x5)\n	return [3]float64{r[0], r[1], r[2]}\n')
four='[]float64{x0, x1, x2, x3}'
eq('frame_db','x0, x1, x2, x3 float64','[3]float64',NEW+f'	s.Process({four})\n	r := s.GetSpectrumDB()\n	return [3]float64{{r[0], r[1], r[2]}}\n',
FR+'	r := frame(x0, x1, x2, x3)\n	return [3]float64{zzFloor(r[0]), zzFloor(r[1]), zzFloor(r[2])}\n')
for nm,lo,hi,bins in (('default',None,None,'r[1], r[2]'),('low','0','8','r[0]'),('mid','16','31','r[1]'),('high','32','100','r[2]'),('all','-5','32','r[0], r[1], r[2]'),('none','32','20','')):
    k=0 if not bins else bins.count(',')+1
    setr='' if lo is None else f'	s.SetFrequencyRange({lo}, {hi})\n'
    # default range: from 20 Hz, bin 1
    eq(f'frame_range_{nm}','x0, x1, x2, x3 float64',f'(int, [{k}]float64)',NEW+setr+f'	s.Process({four})\n	r := s.GetSpectrumInRange()\n	var o [{k}]float64\n	for i := range o {{\n		o[i] = r[i]\n	}}\n	return len(r), o\n',
    (FR+f'	r := frame(x0, x1, x2, x3)\n' if k else '')+f'	return {k}, [{k}]float64{{{bins}}}\n')
eq('frame_range_db','x0, x1, x2, x3 float64','[2]float64',NEW+f'	s.Process({four})\n	r := s.GetSpectrumDBInRange()\n	return [2]float64{{r[0], r[1]}}\n',
FR+'	r := frame(x0, x1, x2, x3)\n	return [2]float64{zzFloor(r[1]), zzFloor(r[2])}\n')
eq('frame_tallest','x0, x1, x2, x3 float64','(float64, float64)',NEW+f'	s.SetFrequencyRange(0, 32)\n	s.Process({four})\n	return s.GetPeakFrequency()\n',
FR+'''	r := frame(x0, x1, x2, x3)
	f, m := 0.0, 0.0
	for i, v := range r {
		if v > m {
			f, m = float64(i)*16, v
		}
	}
	return f, m
''')
eq('frame_band','x0, x1, x2, x3 float64','[4]float64',NEW+f'	s.Process({four})\n	return [4]float64{{s.GetBandEnergy(0, 1000), s.GetBandEnergy(16, 17), s.GetBandEnergy(-100, 20), s.GetBandEnergy(20, 10)}}\n',
FR+'''	r := frame(x0, x1, x2, x3)
	a, b, c := r[0]*r[0], r[1]*r[1], r[2]*r[2]
	return [4]float64{a + b + c, b, a + b, 0}
''')
eq('frame_octave','x0, x1, x2, x3 float64','[4]float64',NEW+f'	s.Process({four})\n	r := s.GetOctaveBands([]float64{{4, 16, 32, 640}})\n	return [4]float64{{r[0], r[1], r[2], r[3]}}\n',
FR+'''	r := frame(x0, x1, x2, x3)
	a, b, c := r[0]*r[0], r[1]*r[1], r[2]*r[2]
	return [4]float64{math.Sqrt(a), math.Sqrt((a + b) / 2), math.Sqrt((b + c) / 2), 0}
''')
eq('frame_bin','b int','float64',NEW+'	return s.GetFrequencyForBin(b)\n','	return float64(b) * 16\n')
eq('frame_bin_of','','[4]int',NEW+'	return [4]int{s.GetBinForFrequency(0), s.GetBinForFrequency(15), s.GetBinForFrequency(16), s.GetBinForFrequency(40)}\n','	return [4]int{0, 0, 1, 2}\n')
eq('frame_octaves','','(int, bool)','''	b := analysis.StandardOctaveBands()
	ok := true
	for i := 2; i < len(b); i++ {
		if b[i] != 2*b[i-1] && b[i-1] != 63 {
			ok = false
		}
	}
	return len(b), ok && b[0] == 31.5 && b[5] == 1000
''','	return 10, true\n')
eq('frame_third_octaves','','(int, bool)','''	b := analysis.StandardThirdOctaveBands()
	ok := true
	for i := 0; i < len(b); i++ {
		d := b[i] - 1000*math.Pow(2, float64(i-16)/3)
		if d > 1e-6 || d < -1e-6 {
			ok = false
		}
	}
	return len(b), ok
''','	return 29, true\n')
# --- scope
SC='	s := analysis.NewPhaseScope(3)\n'
eq('scope_points','a, b, c, d, e, f, g, h float64','([3]analysis.PhasePoint, [3]float64)',SC+'''	s.Process([]float64{a, b}, []float64{e, f})
	s.Process([]float64{c, d}, []float64{g, h})
	p, q := s.GetPoints()
	return [3]analysis.PhasePoint{p[0], p[1], p[2]}, [3]float64{q[0], q[1], q[2]}
''','''	return [3]analysis.PhasePoint{{X: b, Y: f}, {X: c, Y: g}, {X: d, Y: h}}, [3]float64{0.95, 1, 1}
''')
eq('scope_part','a, b, d, k float64','(int, [2]analysis.PhasePoint, [2]float64)',SC+'''	s.SetDecay(d)
	s.SetScale(k)
	s.Process([]float64{a}, []float64{b})
	s.Process([]float64{b}, []float64{a})
	s.Process([]float64{b}, []float64{})
	p, q := s.GetPoints()
	return len(p), [2]analysis.PhasePoint{p[0], p[1]}, [2]float64{q[0], q[1]}
''','''	f := 0.95
	if d >= 0 && d <= 1 {
		f = d
	}
	g := 1.0
	if k > 0 {
		g = k
	}
	return 2, [2]analysis.PhasePoint{{X: a * g, Y: b * g}, {X: b * g, Y: a * g}}, [2]float64{f, 1}
''')
eq('scope_turned','a, b float64','analysis.PhasePoint',SC+'''	s.SetMode(analysis.ModeGoniometer)
	s.Process([]float64{a}, []float64{b})
	p, _ := s.GetPoints()
	return p[0]
''','''	c, d := math.Cos(math.Pi/4), math.Sin(math.Pi/4)
	return analysis.PhasePoint{X: a*c - b*d, Y: a*d + b*c}
''')
eq('scope_straight','a, b float64','[2]analysis.PhasePoint',SC+'''	s.SetMode(analysis.ModeGoniometer)
	s.SetMode(analysis.ModePolar)
	s.Process([]float64{a}, []float64{b})
	s.SetMode(analysis.ModeGoniometer)
	s.SetMode(analysis.ModeLissajous)
	s.Process([]float64{b}, []float64{a})
	p, _ := s.GetPoints()
	return [2]analysis.PhasePoint{p[0], p[1]}
''','''	return [2]analysis.PhasePoint{{X: a, Y: b}, {X: b, Y: a}}
''')
eq('scope_polar','a, b, c, d, e, f, g, h float64','([3]float64, [3]float64, [3]float64)',SC+'''	s.SetScale(2)
	s.Process([]float64{a, b}, []float64{e, f})
	s.Process([]float64{c, d}, []float64{g, h})
	p, q, r := s.GetPolarData()
	return [3]float64{p[0], p[1], p[2]}, [3]float64{q[0], q[1], q[2]}, [3]float64{r[0], r[1], r[2]}
''','''	rad := func(x, y float64) float64 { return math.Sqrt(x*2*(x*2) + y*2*(y*2)) }
	return [3]float64{rad(b, f), rad(c, g), rad(d, h)}, [3]float64{math.Atan2(f*2, b*2), math.Atan2(g*2, c*2), math.Atan2(h*2, d*2)}, [3]float64{0.95, 1, 1}
''')
eq('scope_statistics','a, b, c, d float64','[4]float64',SC+'''	s.Process([]float64{a, b}, []float64{c, d})
	t := s.GetStatistics()
	return [4]float64{t.AverageMid, t.AverageSide, t.Width, t.MaxRadius}
''','''	m := (math.Abs((a+c)/2) + math.Abs((b+d)/2)) / 2
	s := (math.Abs((a-c)/2) + math.Abs((b-d)/2)) / 2
	w := 0.0
	if m > 0 {
		w = s / m
	}
	return [4]float64{m, s, w, math.Max(math.Sqrt(a*a+c*c), math.Sqrt(b*b+d*d))}
''')
eq('scope_reset','a, b float64','(int, analysis.PhaseScopeStats)',SC+'''	s.Process([]float64{a, b}, []float64{b, a})
	s.Reset()
	p, _ := s.GetPoints()
	return len(p), s.GetStatistics()
''','''	return 0, analysis.PhaseScopeStats{}
''')
eq('scope_vector','a, b float64','(analysis.PhasePoint, float64)','''	s := analysis.NewVectorScope(3)
	s.Process([]float64{a}, []float64{b})
	p, q, _, _ := s.GetDisplay()
	return p[0], q[0]
''','''	c, d := math.Cos(math.Pi/4), math.Sin(math.Pi/4)
	return analysis.PhasePoint{X: a*c - b*d, Y: a*d + b*c}, 1
''')
src='\n'.join(out)
p='/verif/sa/refs/c23_analysis.go.txt'
open(p,'w').write(subprocess.run(['gofmt'],input=src,text=True,capture_output=True,check=True).stdout)
