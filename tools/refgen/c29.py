import subprocess
out=['''// The loudness meter, against ITU-R BS.1770.
package zzvsaref

import (
	"math"

	analysis "github.com/justyntemme/vst3go/pkg/dsp/analysis"
)

type zzBiquad struct{ b0, b1, b2, a1, a2, x1, x2, y1, y2 float64 }

func (q *zzBiquad) run(x float64) float64 {
	y := q.b0*x + q.b1*q.x1 + q.b2*q.x2 - q.a1*q.y1 - q.a2*q.y2
	q.x2, q.x1 = q.x1, x
	q.y2, q.y1 = q.y1, y
	return y
}

// the first stage: a shelf that lifts the highs by 4 dB
func zzShelf(sr float64) *zzBiquad {
	f0, g, q := 1681.974450955533, 3.999843853973347, 0.7071752369554196
	k := math.Tan(math.Pi * f0 / sr)
	vh := math.Pow(10, g/20)
	vb := math.Pow(vh, 0.4996667741545416)
	a0 := 1 + k/q + k*k
	return &zzBiquad{b0: (vh + vb*k/q + k*k) / a0, b1: 2 * (k*k - vh) / a0, b2: (vh - vb*k/q + k*k) / a0,
		a1: 2 * (k*k - 1) / a0, a2: (1 - k/q + k*k) / a0}
}

// the second stage: a high-pass at 38 Hz
func zzRLB(sr float64) *zzBiquad {
	f0, q := 38.13547087602444, 0.5003270373238773
	k := math.Tan(math.Pi * f0 / sr)
	a0 := 1 + k/q + k*k
	return &zzBiquad{b0: 1, b1: -2, b2: 1, a1: 2 * (k*k - 1) / a0, a2: (1 - k/q + k*k) / a0}
}

// one channel, weighted
func zzK(sr float64, in ...float64) []float64 {
	p, q := zzShelf(sr), zzRLB(sr)
	o := make([]float64, len(in))
	for i, x := range in {
		o[i] = q.run(p.run(x))
	}
	return o
}

func zzPower(y []float64) float64 {
	s := 0.0
	for _, v := range y {
		s += v * v
	}
	return s / float64(len(y))
}

func zzLoud(power float64) float64 {
	if power > 0 {
		return -0.691 + 10*math.Log10(power)
	}
	return -math.Inf(1)
}
''']
A=out.append
L=lambda n,p='x': ', '.join(f'{p}{i}' for i in range(n))
def eq(name,params,ret,lhs,rhs):
    A(f'func Lhs_{name}({params}) {ret} {{\n{lhs}}}\n')
    A(f'func Rhs_{name}({params}) {ret} {{\n{rhs}}}\n')
for sr,b in ((3,1),(5,2),(10,4)):
    eq(f'weigh_mono_{sr}',f'{L(b)} float64','float64',
f'''	m := analysis.NewLUFSMeter({sr}, 1)
	m.Process([]float64{{{L(b)}}})
	return m.GetMomentaryLUFS()
''',f'''	return zzLoud(zzPower(zzK({sr}, {L(b)})))
''')
    eq(f'weigh_slide_{sr}',f'{L(b+2)} float64','[3]float64',
f'''	m := analysis.NewLUFSMeter({sr}, 1)
	m.Process([]float64{{{L(b)}}})
	o := [3]float64{{m.GetMomentaryLUFS()}}
	m.Process([]float64{{x{b}}})
	o[1] = m.GetMomentaryLUFS()
	m.Process([]float64{{x{b+1}}})
	o[2] = m.GetMomentaryLUFS()
	return o
''',(f'''	y := zzK({sr}, {L(b+2)})
	return [3]float64{{zzLoud(zzPower(y[:{b}])), zzLoud(zzPower(y[1:{b+1}])), zzLoud(zzPower(y[2:]))}}
''' if sr!=0 else ''))
eq('weigh_slide_stereo','x0, x1, x2, x3, x4, x5 float64','float64',
'''	m := analysis.NewLUFSMeter(5, 2)
	m.Process([]float64{x0, x1, x2, x3, x4, x5})
	return m.GetMomentaryLUFS()
''','''	return zzLoud(zzPower(zzK(5, x0, x2, x4)[1:]) + zzPower(zzK(5, x1, x3, x5)[1:]))
''')
eq('weigh_early','x, y, z float64','[2]float64',
'''	m := analysis.NewLUFSMeter(10, 1)
	m.Process([]float64{x, y, z})
	return [2]float64{m.GetMomentaryLUFS(), m.GetIntegratedLUFS()}
''','''	return [2]float64{-math.Inf(1), -math.Inf(1)}
''')
eq('weigh_silence','','[3]float64',
'''	m := analysis.NewLUFSMeter(3, 2)
	m.Process(make([]float64, 20))
	return [3]float64{m.GetMomentaryLUFS(), m.GetShortTermLUFS(), m.GetIntegratedLUFS()}
''','''	return [3]float64{-math.Inf(1), -math.Inf(1), -math.Inf(1)}
''')
W={1:[1],2:[1,1],3:[1]*3,5:[1,1,1,1.41,1.41],6:[1,1,1,0,1.41,1.41]}
for ch,w in W.items():
    eq(f'channels_{ch}',f'{L(ch)} float64','(float64, float64)',
f'''	m := analysis.NewLUFSMeter(3, {ch})
	m.Process([]float64{{{L(ch)}}})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS()
''',f'''	p := 0.0
	x := []float64{{{L(ch)}}}
	for i, w := range []float64{{{', '.join(map(str,w))}}} {{
		p += w * zzPower(zzK(3, x[i]))
	}}
	l := zzLoud(p)
	if l >= -70 {{
		return l, l
	}}
	return l, -math.Inf(1)
''')
eq('channels_interleaved','a, b, c, d float64','float64',
'''	m := analysis.NewLUFSMeter(5, 2)
	m.Process([]float64{a, b, c, d})
	return m.GetMomentaryLUFS()
''','''	return zzLoud(zzPower(zzK(5, a, c)) + zzPower(zzK(5, b, d)))
''')
eq('channels_none','a float64','(float64, float64)',
'''	m := analysis.NewLUFSMeter(3, 0)
	n := analysis.NewLUFSMeter(3, -2)
	m.Process([]float64{a})
	n.Process([]float64{a})
	return m.GetMomentaryLUFS(), n.GetMomentaryLUFS()
''','''	l := zzLoud(zzPower(zzK(3, a)))
	return l, l
''')
# short term: 3 s
eq('window_short',f'{L(9)} float64','float64',
f'''	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{{{L(9)}}})
	return m.GetShortTermLUFS()
''',f'''	return zzLoud(zzPower(zzK(3, {L(9)})))
''')
eq('window_short_slide',f'{L(3)} float64','float64',
f'''	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{{x0, x1, 0, 0, 0, 0, 0, x2, 0, 0, 0}})
	return m.GetShortTermLUFS()
''',f'''	return zzLoud(zzPower(zzK(3, x0, x1, 0, 0, 0, 0, 0, x2, 0, 0, 0)[2:]))
''')
eq('window_short_early',f'{L(2)} float64','float64',
f'''	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{{x0, x1, 0, 0, 0, 0, 0, 0}})
	return m.GetShortTermLUFS()
''',f'''	return -math.Inf(1)
''')
# integrated
G='''	gated := func(p []float64) float64 {
		s, n := 0.0, 0
		for _, v := range p {
			if zzLoud(v) >= -70 {
				s += math.Pow(10, zzLoud(v)/10)
				n++
			}
		}
		if n == 0 {
			return -math.Inf(1)
		}
		least := 10*math.Log10(s/float64(n)) - 10
		t, k := 0.0, 0
		for _, v := range p {
			if zzLoud(v) >= -70 && zzLoud(v) >= least {
				t += math.Pow(10, zzLoud(v)/10)
				k++
			}
		}
		if k == 0 {
			return -math.Inf(1)
		}
		return 10 * math.Log10(t/float64(k))
	}
'''
eq('gate_two','x, y float64','float64',
'''	if !(x >= 1 && x <= 2 && y >= 1 && y <= 2) {
		return 0
	}
	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{x})
	m.Process([]float64{y})
	return m.GetIntegratedLUFS()
''','''	if !(x >= 1 && x <= 2 && y >= 1 && y <= 2) {
		return 0
	}
'''+G+'''	k := zzK(3, x, y)
	return gated([]float64{k[0] * k[0], k[1] * k[1]})
''')
for nm,xs in (('between','4.8e-5, 6.6e-4, 3.9e-4'),('loud','0.5, 0.25, 0.5, 0.25'),('quiet','1e-6, 1e-6, 1e-6, 1e-6'),('absolute','0.5, 0.5, 1e-7, 1e-7, 1e-7, 1e-7, 1e-7, 1e-7'),('relative','0.5, -0.5, 0.5, 0.01, 0.01, 0.01, 0.005, 0.01'),
  ('both','0.5, -0.25, 0.03125, 0.0, 0.0, 1e-8, 1e-8, 0.0625')):
  eq(f'gate_{nm}','','bool',
f'''	m := analysis.NewLUFSMeter(3, 1)
	x := []float64{{{xs}}}
	m.Process(x)
	p := zzK(3, x...)
	for i := range p {{
		p[i] *= p[i]
	}}
'''+G+'''	a, b := m.GetIntegratedLUFS(), gated(p)
	return a == b || math.Abs(a-b) < 1e-6
''','''	return true
''')
# however it is cut
eq('cut_mono',f'{L(6)} float64','(float64, float64)',
f'''	m := analysis.NewLUFSMeter(10, 1)
	m.Process([]float64{{{L(6)}}})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS()
''',f'''	m := analysis.NewLUFSMeter(10, 1)
	m.Process([]float64{{x0}})
	m.Process([]float64{{x1, x2}})
	m.Process([]float64{{}})
	m.Process([]float64{{x3, x4}})
	m.Process([]float64{{x5}})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS()
''')
eq('cut_stereo',f'{L(6)} float64','(float64, float64)',
f'''	m := analysis.NewLUFSMeter(5, 2)
	m.Process([]float64{{{L(6)}}})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS()
''',f'''	m := analysis.NewLUFSMeter(5, 2)
	m.Process([]float64{{x0, x1}})
	m.Process([]float64{{x2, x3}})
	m.Process([]float64{{x4, x5}})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS()
''')
B="""	if !(x >= 1 && x <= 2 && y >= 1 && y <= 2) {
		return 0, 0, 0
	}
"""
eq('cut_reset','x, y float64','(float64, float64, float64)',B+
'''	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{x, x, x})
	m.Reset()
	m.Process([]float64{y})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS(), m.GetShortTermLUFS()
''',B+'''	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{y})
	return m.GetMomentaryLUFS(), m.GetIntegratedLUFS(), m.GetShortTermLUFS()
''')
eq('cut_range_early',f'{L(3)} float64','float64',
f'''	m := analysis.NewLUFSMeter(3, 1)
	m.Process([]float64{{{L(3)}}})
	return m.GetLoudnessRange()
''',f'''	return 0
''')
src='\n'.join(out)
open('/tmp/c29.go','w').write(src)
p='/verif/sa/refs/c29_loudness.go.txt'
open(p,'w').write(subprocess.run(['gofmt'],input=src,text=True,capture_output=True,check=True).stdout)
