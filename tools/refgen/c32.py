import subprocess
out=['''// The debug instruments.
package zzvsaref

import (
	"math"
	"time"

	debug "github.com/justyntemme/vst3go/pkg/framework/debug"
)

// a writer that keeps what it is given
type zzSink struct {
	n    int
	text string
}

func (s *zzSink) Write(p []byte) (int, error) {
	s.n++
	s.text += string(p)
	return len(p), nil
}

func zzAbs(x float32) float32 {
	if x < 0 {
		return -x
	}
	return x
}

func zzMax(x ...float32) float32 {
	m := float32(0)
	for _, v := range x {
		if zzAbs(v) > m {
			m = zzAbs(v)
		}
	}
	return m
}

func zzSq(x float32) float64 { return float64(x * x) }

func zzFlip(a, b float32) int {
	if (a < 0) != (b < 0) {
		return 1
	}
	return 0
}

func zzOne(b bool) int {
	if b {
		return 1
	}
	return 0
}
''']
def eq(n,p,r,l,rr): out.append(f"func Lhs_{n}({p}) {r} {{\n{l}}}\nfunc Rhs_{n}({p}) {r} {{\n{rr}}}\n")
def xs(n): return ', '.join(f'x{i}' for i in range(n))
for n in (1,2,4):
    X=xs(n)
    eq(f'analyze_levels_{n}',X+' float32','(float32, float32, float32)',
f'''	r := debug.NewAudioAnalyzer().Analyze([]float32{{{X}}})
	return r.Peak, r.RMS, r.DC
''',f'''	return zzMax({X}), float32(math.Sqrt(({' + '.join(f'zzSq(x{i})' for i in range(n))}) / {n})), float32(({' + '.join(f'float64(x{i})' for i in range(n))}) / {n})
''')
X=xs(3)
eq('analyze_clips',X+' float32','(bool, int)',
f'''	r := debug.NewAudioAnalyzer().Analyze([]float32{{{X}}})
	return r.Clipping, r.ClippedSamples
''',f'''	n := zzOne(zzAbs(x0) >= 0.99) + zzOne(zzAbs(x1) >= 0.99) + zzOne(zzAbs(x2) >= 0.99)
	return n > 0, n
''')
eq('analyze_crossings',xs(4)+' float32','int',
f'''	return debug.NewAudioAnalyzer().Analyze([]float32{{{xs(4)}}}).ZeroCrossings
''','''	return zzFlip(x0, x1) + zzFlip(x1, x2) + zzFlip(x2, x3)
''')
eq('analyze_silent','x0, x1 float32','bool',
'''	return debug.NewAudioAnalyzer().Analyze([]float32{x0, x1}).Silent
''','''	return float32(math.Sqrt((zzSq(x0)+zzSq(x1))/2)) < 0.0001
''')
eq('analyze_empty','','(float32, float32, float32, bool, bool, bool, int, int, int)',
'''	r := debug.NewAudioAnalyzer().Analyze(nil)
	return r.Peak, r.RMS, r.DC, r.Clipping, r.Silent, r.HasNaN, r.ClippedSamples, r.NaNCount, r.ZeroCrossings
''','''	return 0, 0, 0, false, false, false, 0, 0, 0
''')
NAN='float32(math.NaN())'
for n,b,o in (('mid','x0, '+NAN+', x1',1),('first',NAN+', x0, x1',1),('two',f'x0, {NAN}, {NAN}, x1',2)):
    eq(f'analyze_nan_{n}','x0, x1 float32','(float32, float32, float32, bool, bool, int, int, bool)',
f'''	r := debug.NewAudioAnalyzer().Analyze([]float32{{{b}}})
	return r.Peak, r.RMS, r.DC, r.Clipping, r.HasNaN, r.NaNCount, r.ZeroCrossings, r.Silent
''',f'''	r := debug.NewAudioAnalyzer().Analyze([]float32{{x0, x1}})
	return r.Peak, r.RMS, r.DC, r.Clipping, true, {o}, r.ZeroCrossings, r.Silent
''')
eq('analyze_nan_only','','(float32, float32, float32, bool, int, int, bool)',
f'''	r := debug.NewAudioAnalyzer().Analyze([]float32{{{NAN}, {NAN}}})
	return r.Peak, r.RMS, r.DC, r.HasNaN, r.NaNCount, r.ZeroCrossings, r.Silent
''','''	return 0, 0, 0, true, 2, 0, false
''')
eq('analyze_again','x0, x1, x2 float32','(float32, float32, float32, int)',
'''	a := debug.NewAudioAnalyzer()
	a.Analyze([]float32{x2, -1, 1})
	r := a.Analyze([]float32{x0, x1})
	return r.Peak, r.RMS, r.DC, r.ZeroCrossings
''','''	r := debug.AnalyzeBuffer([]float32{x0, x1})
	return r.Peak, r.RMS, r.DC, r.ZeroCrossings
''')
eq('check_count','x0, x1 float32','int',
'''	return len(debug.CheckBuffer([]float32{x0, x1}, "b"))
''','''	r := debug.NewAudioAnalyzer().Analyze([]float32{x0, x1})
	n := 0
	if r.Clipping {
		n++
	}
	if math.Abs(float64(r.DC)) > float64(float32(0.01)) {
		n++
	}
	if r.Peak > 1 {
		n++
	}
	return n
''')
eq('check_nan','','(int, string)',
f'''	s := debug.CheckBuffer([]float32{{0, {NAN}, 0}}, "in")
	return len(s), s[0]
''','''	return 1, "in: Contains 1 NaN values"
''')
eq('check_clip','','(int, string, string, string)',
'''	s := debug.CheckBuffer([]float32{2, 0.5, -0.995}, "in")
	return len(s), s[0], s[1], s[2]
''','''	return 3, "in: Clipping detected (2 samples)", "in: DC offset detected (0.502)", "in: Peak exceeds 1.0 (2.000)"
''')
for n,a,b,t,r in (
 ('length','x0','x0, x1','0.1','"Buffer length mismatch: 1 vs 2"'),
 ('same','x0, x1','x0, x1','0','"Buffers are identical within tolerance"'),
 ('one','-4, 1, 2, 3','-4, 1, 2.5, 3','0.25','"Buffer differences:\\n  Samples different: 1 / 4 (25.0%)\\n  Max difference: 0.500000 at sample 2\\n  Average difference: 0.500000\\n  Tolerance: 0.250000"'),
 ('two','2, 7, 1, 0','1, 7, 3, 0.125','0.25','"Buffer differences:\\n  Samples different: 2 / 4 (50.0%)\\n  Max difference: 2.000000 at sample 2\\n  Average difference: 1.500000\\n  Tolerance: 0.250000"'),
 ('edge','2, x0','1.75, x0','0.25','"Buffers are identical within tolerance"'),
):
    eq(f'compare_{n}','x0, x1 float32','string',f'''	return debug.CompareBuffers([]float32{{{a}}}, []float32{{{b}}}, {t})
''',f'''	return {r}
''')
# the profiler
TM='''	t{i} := time.Now()
	d{i} := time.Now().Sub(t{i})
'''
def run(k,name='"a"'): return f'	p.Time({name}, func() {{}})\n'*k
def tim(k,o=0): return ''.join(TM.format(i=i+o) for i in range(k))
GET='	m, ok := p.GetMeasurement("a")\n	if !ok {\n		return -1\n	}\n'
for k in (1,2,3):
    eq(f'profile_average_{k}','','time.Duration','	p := debug.NewProfiler(4)\n'+run(k)+GET+'	return m.Average()\n',
      tim(k)+f"	return ({' + '.join(f'd{i}' for i in range(k))}) / {k}\n")
eq('profile_average_wrapped','','time.Duration','	p := debug.NewProfiler(2)\n'+run(3)+GET+'	return m.Average()\n',
      tim(3)+"	return (d0 + d1 + d2) / 3\n")
POS=lambda k: ''.join(f'	if d{i} <= 0 {{\n		return 0\n	}}\n' for i in range(k))
def guarded(k,o=0): return ' && '.join(f'd{i} > 0' for i in range(o,o+k))
eq('profile_start','','(bool, time.Duration)','''	p := debug.NewProfiler(4)
	stop := p.Start("a")
	time.Now()
	stop()
	m, ok := p.GetMeasurement("a")
	return ok, m.Average()
''','''	t := time.Now()
	time.Now()
	return true, time.Now().Sub(t)
''')
eq('profile_off','','(bool, bool, int)','''	p := debug.NewProfiler(4)
	p.SetEnabled(false)
	n := 0
	p.Time("a", func() { n++ })
	_, ok := p.GetMeasurement("a")
	return p.IsEnabled(), ok, n
''','''	return false, false, 1
''')
eq('profile_on','','(bool, bool, time.Duration)','''	p := debug.NewProfiler(4)
	p.SetEnabled(false)
	p.Start("a")()
	p.SetEnabled(true)
	p.Start("a")()
	m, ok := p.GetMeasurement("a")
	return p.IsEnabled(), ok, m.Average()
''',tim(1)+'''	return true, true, d0
''')
eq('profile_names','','(time.Duration, time.Duration, int, bool)','''	p := debug.NewProfiler(4)
	p.Start("a")()
	p.Start("b")()
	p.Start("a")()
	a, _ := p.GetMeasurement("a")
	b, _ := p.GetMeasurement("b")
	_, c := p.GetMeasurement("c")
	return a.Average(), b.Average(), len(p.GetAllMeasurements()), c
''',tim(3)+'''	return (d0 + d2) / 2, d1, 2, false
''')
eq('profile_reset','','(bool, int, time.Duration)','''	p := debug.NewProfiler(4)
	p.Start("a")()
	p.Reset()
	_, ok := p.GetMeasurement("a")
	n := len(p.GetAllMeasurements())
	p.Start("a")()
	m, _ := p.GetMeasurement("a")
	return ok, n, m.Average()
''','	time.Now().Sub(time.Now())\n'+TM.format(i=1)+'''	return false, 0, d1
''')
eq('profile_copy','','(time.Duration, time.Duration)','''	p := debug.NewProfiler(4)
	p.Start("a")()
	m, _ := p.GetMeasurement("a")
	p.Start("a")()
	n, _ := p.GetMeasurement("a")
	return m.Average(), n.Average()
''',tim(2)+'''	return d0, (d0 + d1) / 2
''')
eq('profile_separate','','(bool, bool)','''	p, q := debug.NewProfiler(4), debug.NewProfiler(4)
	p.Start("a")()
	_, a := p.GetMeasurement("a")
	_, b := q.GetMeasurement("a")
	return a, b
''','	time.Now().Sub(time.Now())\n'+'''	return true, false
''')
# percentiles
for k,o,size,pp,idx in ((1,0,4,'50',0),(2,0,4,'0',0),(2,0,4,'100',1),(3,0,4,'50',1),(3,0,4,'0',0),(3,0,4,'100',2),(3,0,3,'99',1),(3,1,2,'100',1),(3,1,2,'0',0),(2,1,1,'50',0),(2,0,4,'150',1),(2,0,4,'-5',0),(2,1,0,'100',0),(5,3,2,'0',0),(5,3,2,'100',1),(7,4,3,'100',2),(8,5,3,'50',1),(8,5,3,'0',0)):
    n=k-o
    body=f'	d := []time.Duration{{{", ".join(f"d{i}" for i in sorted(range(o,k),key=lambda i:i%max(size,1)))}}}\n'+('' if n<2 else f"""	for i := 0; i < {n}; i++ {{
		for j := 0; j+1 < {n}; j++ {{
			if d[j+1] < d[j] {{
				d[j], d[j+1] = d[j+1], d[j]
			}}
		}}
	}}
""")
    eq(f"percentile_{k}_of{size}_{pp.replace('-','m')}",'','time.Duration',f'	p := debug.NewProfiler({size})\n'+run(k)+GET+f'	return m.Percentile({pp})\n',
     ''.join(TM.format(i=i) if i>=o else '	time.Now().Sub(time.Now())\n' for i in range(k))+body+f'	return d[{idx}]\n')
eq('percentile_none','','time.Duration','''	var m debug.Measurement
	return m.Percentile(50)
''','''	return 0
''')
eq('percentile_keeps','','(time.Duration, time.Duration)','''	p := debug.NewProfiler(2)
	p.Start("a")()
	p.Start("a")()
	m, _ := p.GetMeasurement("a")
	m.Percentile(50)
	p.Start("a")()
	m, _ = p.GetMeasurement("a")
	return m.Percentile(0), m.Percentile(100)
''','''	time.Now().Sub(time.Now())
'''+TM.format(i=1)+TM.format(i=2)+'''	if d2 < d1 {
		return d2, d1
	}
	return d1, d2
''')
# load
for r,b in ((64,2),(46875,512)):
    eq(f'load_{r}','','float64',f'''	p := debug.NewAudioProcessProfiler({r}, {b})
	p.Start("ProcessAudio")()
	p.Start("other")()
	p.Start("ProcessAudio")()
	p.UpdateCPULoad()
	return p.GetCPULoad()
''',tim(3)+f'''	_ = d1
	size, rate := float64({b}), {r}.0
	span := time.Duration(size / rate * float64(time.Second))
	return float64(uint64(float64((d0+d2)/2)/float64(span)*100*100)) / 100
''')
eq('load_none','','float64','''	p := debug.NewAudioProcessProfiler(100, 2)
	p.UpdateCPULoad()
	return p.GetCPULoad()
''','''	return 0
''')
# the logger
lv=['Debug','Info','Warn','Error']
for i,l in enumerate(lv):
    eq(f'log_level_{l.lower()}','level int, x int','(int, string)',f'''	s := &zzSink{{}}
	l := debug.New(s, "p", 0)
	l.SetLevel(debug.LogLevel(level))
	l.{l}("v %d", x)
	return s.n, s.text
''',f'''	s := &zzSink{{}}
	if {i} >= level {{
		s.Write([]byte(fmt.Sprintf("v %d\\n", x)))
	}}
	return s.n, s.text
''')
    eq(f'log_form_{l.lower()}','','string',f'''	s := &zzSink{{}}
	l := debug.New(s, "p", debug.FlagLevel|debug.FlagPrefix)
	l.SetLevel(debug.LogLevelDebug)
	l.{l}("text")
	l.{l}("line\\n")
	return s.text
''',f'''	return "[{l.upper()}] [p] text\\n[{l.upper()}] [p] line\\n"
''')
eq('log_default','','string','''	s := &zzSink{}
	l := debug.New(s, "", 0)
	l.Debug("a")
	l.Info("b")
	return s.text
''','''	return "b\\n"
''')
eq('log_off','','(int, bool)','''	s := &zzSink{}
	l := debug.New(s, "", 0)
	l.SetEnabled(false)
	l.Error("a")
	off := l.IsEnabled()
	l.SetEnabled(true)
	l.SetLevel(debug.LogLevelOff)
	l.Error("b")
	return s.n, off
''','''	return 0, false
''')
eq('log_settings','','string','''	s, t := &zzSink{}, &zzSink{}
	l := debug.New(s, "p", debug.FlagLevel)
	l.Info("a")
	l.SetPrefix("q")
	l.SetFlags(debug.FlagPrefix)
	l.Warn("b")
	l.SetOutput(t)
	l.Info("c")
	return s.text + t.text
''','''	return "[INFO] a\\n[q] b\\n[q] c\\n"
''')
src='\n'.join(out)
src=src.replace('import (\n	"math"','import (\n	"fmt"\n	"math"',1)
open('/tmp/c32.go','w').write(src)
p='/verif/sa/refs/c32_debug.go.txt'
open(p,'w').write(subprocess.run(['gofmt'],input=src,text=True,capture_output=True,check=True).stdout)
