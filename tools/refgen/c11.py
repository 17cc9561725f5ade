out=['''// Filters.
package zzvsaref

import (
	"math"

	filter "github.com/justyntemme/vst3go/pkg/dsp/filter"
	utility "github.com/justyntemme/vst3go/pkg/dsp/utility"
)

// a second-order section by its difference equation, from rest
func zzSection(b0, b1, b2, a0, a1, a2 float64, x [4]float32) (y0, y1, y2, y3 float64) {
	v := [4]float64{float64(x[0]), float64(x[1]), float64(x[2]), float64(x[3])}
	y0 = b0 * v[0] / a0
	y1 = (b0*v[1] + b1*v[0] - a1*y0) / a0
	y2 = (b0*v[2] + b1*v[1] + b2*v[0] - a1*y1 - a2*y0) / a0
	y3 = (b0*v[3] + b1*v[2] + b2*v[1] - a1*y2 - a2*y1) / a0
	return
}
''']
R="(float64, float64, float64, float64)"
def eq(name, params, ret, l, r):
    out.append(f"func Lhs_{name}({params}) {ret} {{\n{l}\n}}\nfunc Rhs_{name}({params}) {ret} {{\n{r}\n}}\n")
X="x0, x1, x2, x3 float32"
OUT="\treturn float64(x[0]), float64(x[1]), float64(x[2]), float64(x[3])"
des={
"lowpass":("(1-c)/2","1-c","(1-c)/2","1+al","-2*c","1-al"),
"highpass":("(1+c)/2","-(1+c)","(1+c)/2","1+al","-2*c","1-al"),
"bandpass":("al","0","-al","1+al","-2*c","1-al"),
"notch":("1","-2*c","1","1+al","-2*c","1-al"),
"allpass":("1-al","-2*c","1+al","1+al","-2*c","1-al"),
}
for n,co in des.items():
    f={"peak":"PeakingEQ"}.get(n,n.capitalize())
    eq("design_"+n,"sr, f, q float64, "+X,R,
f"\tb := filter.NewBiquad(2)\n\tb.Set{f}(sr, f, q)\n\tx := []float32{{x0, x1, x2, x3}}\n\tb.Process(x, 1)\n"+OUT,
"\tc, al := math.Cos(2*math.Pi*f/sr), math.Sin(2*math.Pi*f/sr)/(2*q)\n\treturn zzSection("+", ".join(co)+", [4]float32{x0, x1, x2, x3})")
g={
"peaking":("PeakingEQ",("1+al*a","-2*c","1-al*a","1+al/a","-2*c","1-al/a")),
"lowshelf":("LowShelf",("a*((a+1)-(a-1)*c+r)","2*a*((a-1)-(a+1)*c)","a*((a+1)-(a-1)*c-r)","(a+1)+(a-1)*c+r","-2*((a-1)+(a+1)*c)","(a+1)+(a-1)*c-r")),
"highshelf":("HighShelf",("a*((a+1)+(a-1)*c+r)","-2*a*((a-1)+(a+1)*c)","a*((a+1)+(a-1)*c-r)","(a+1)-(a-1)*c+r","2*((a-1)-(a+1)*c)","(a+1)-(a-1)*c-r")),
}
for n,(f,co) in g.items():
    eq("design_"+n,"sr, f, q, db float64, "+X,R,
f"\tb := filter.NewBiquad(2)\n\tb.Set{f}(sr, f, q, db)\n\tx := []float32{{x0, x1, x2, x3}}\n\tb.Process(x, 1)\n"+OUT,
"\tc, al := math.Cos(2*math.Pi*f/sr), math.Sin(2*math.Pi*f/sr)/(2*q)\n\ta := math.Pow(10, db/40)\n\tr := 2 * math.Sqrt(a) * al\n\t_ = r\n\treturn zzSection("+", ".join(co)+", [4]float32{x0, x1, x2, x3})")
eq("design_raw","b0, b1, b2, a0, a1, a2 float32, "+X,R,
"\tb := filter.NewBiquad(1)\n\tb.SetCoefficients(b0, b1, b2, a0, a1, a2)\n\tx := []float32{x0, x1, x2, x3}\n\tb.Process(x, 0)\n"+OUT,
"\treturn zzSection(float64(b0), float64(b1), float64(b2), float64(a0), float64(a1), float64(a2), [4]float32{x0, x1, x2, x3})")
# a change of design keeps what was heard
eq("state_retune","sr, f, q float64, "+X,R,
"\tb := filter.NewBiquad(1)\n\tb.SetCoefficients(0, 0, 1, 1, 0, 0)\n\tx := []float32{x0, x1}\n\tb.Process(x, 0)\n\tb.SetCoefficients(0, 1, 0, 1, 0, 0.5)\n\ty := []float32{x2, x3}\n\tb.Process(y, 0)\n\treturn float64(x[0]), float64(x[1]), float64(y[0]), float64(y[1])",
"\treturn 0, 0, float64(x1), float64(x2)")
eq("state_channels",X,R,
"\tb := filter.NewBiquad(2)\n\tb.SetCoefficients(1, 0, 0, 1, 0.5, 0.25)\n\tl, r := []float32{x0, x1}, []float32{x2, x3}\n\tb.ProcessMulti([][]float32{l, r})\n\treturn float64(l[0]), float64(l[1]), float64(r[0]), float64(r[1])",
"\treturn float64(x0), float64(x1) - 0.5*float64(x0), float64(x2), float64(x3) - 0.5*float64(x2)")
eq("state_more_channels",X,R,
"\tb := filter.NewBiquad(1)\n\tb.SetCoefficients(2, 0, 0, 1, 0, 0)\n\tl, r := []float32{x0, x1}, []float32{x2, x3}\n\tb.ProcessMulti([][]float32{l, r})\n\treturn float64(l[0]), float64(l[1]), float64(r[0]), float64(r[1])",
"\treturn 2 * float64(x0), 2 * float64(x1), float64(x2), float64(x3)")
# svf: the bilinear transform of the analogue prototypes
svf={"Lowpass":("g*g","2*g*g","g*g"),"Highpass":("1","-2","1"),"Bandpass":("g","0","-g"),"Notch":("1+g*g","2*(g*g-1)","1+g*g")}
den=("1+g/q+g*g","2*(g*g-1)","1-g/q+g*g")
for n,co in svf.items():
    eq("svf_"+n.lower(),"sr, f, q float64, "+X,R,
f"\ts := filter.NewSVF(2)\n\ts.SetFrequencyAndQ(sr, f, q)\n\tx := []float32{{x0, x1, x2, x3}}\n\ts.Process{n}(x, 1)\n"+OUT,
"\tg := math.Tan(math.Pi * f / sr)\n\treturn zzSection("+", ".join(co+den)+", [4]float32{x0, x1, x2, x3})")
eq("svf_sum","sr, f, q float64, x0, x1 float32","(float32, float32, float32, float32)",
"\ts := filter.NewSVF(1)\n\ts.SetFrequency(sr, f)\n\ts.SetQ(q)\n\to := s.ProcessSample(x0, 0)\n\tp := s.ProcessSample(x1, 0)\n\tk := float32(1 / q)\n\treturn o.Lowpass + o.Highpass + k*o.Bandpass, p.Lowpass + p.Highpass + k*p.Bandpass, o.Lowpass + o.Highpass, p.Lowpass + p.Highpass",
"\ts := filter.NewSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\to := s.ProcessSample(x0, 0)\n\tp := s.ProcessSample(x1, 0)\n\treturn x0, x1, o.Notch, p.Notch")
eq("svf_channels","sr, f, q float64, x0, x1, x2 float32","(float32, float32)",
"\ts := filter.NewSVF(2)\n\ts.SetFrequencyAndQ(sr, f, q)\n\ts.ProcessSample(x0, 0)\n\ts.ProcessSample(x1, 1)\n\treturn s.ProcessSample(x2, 0).Lowpass, s.ProcessSample(x2, 1).Lowpass",
"\ts, t := filter.NewSVF(1), filter.NewSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\tt.SetFrequencyAndQ(sr, f, q)\n\ts.ProcessSample(x0, 0)\n\tt.ProcessSample(x1, 0)\n\treturn s.ProcessSample(x2, 0).Lowpass, t.ProcessSample(x2, 0).Lowpass")
eq("svf_mixed","sr, f, q float64, x0, x1, a, b, c, d float32","(float32, float32)",
"\ts := filter.NewSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\tx := []float32{x0, x1}\n\ts.ProcessMixed(x, 0, a, b, c, d)\n\treturn x[0], x[1]",
"\ts := filter.NewSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\to := s.ProcessSample(x0, 0)\n\tp := s.ProcessSample(x1, 0)\n\treturn a*o.Lowpass + b*o.Highpass + c*o.Bandpass + d*o.Notch, a*p.Lowpass + b*p.Highpass + c*p.Bandpass + d*p.Notch")
modes=["Lowpass","Bandpass","Highpass","Notch"]
def mode(nm, m, w):
    terms=" + ".join(f"{x}*o.{k}" for k,x in w) ; t2=" + ".join(f"{x}*p.{k}" for k,x in w)
    eq("morph_"+nm,"sr, f, q float64, x0, x1 float32","(float32, float32)",
f"\ts := filter.NewMultiModeSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\ts.SetMode({m})\n\tx := []float32{{x0, x1}}\n\ts.Process(x, 0)\n\treturn x[0], x[1]",
f"\ts := filter.NewSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\to := s.ProcessSample(x0, 0)\n\tp := s.ProcessSample(x1, 0)\n\treturn {terms}, {t2}")
for i,m in enumerate(modes):
    mode(m.lower(),str(i*0.25),[(m,1)])
    nx=modes[(i+1)%4]
    mode(m.lower()+"_on",str(i*0.25+0.0625),[(m,0.75),(nx,0.25)])
mode("wrap","1",[("Lowpass",1)])
mode("wrap_more","2.25",[("Bandpass",1)])
mode("wrap_back","-0.25",[("Notch",1)])
eq("morph_any","sr, f, q float64, m float64, x0 float32","float32",
"\tif !(m >= 0 && m < 1) {\n\t\treturn 0\n\t}\n\ts := filter.NewMultiModeSVF(1)\n\ts.SetFrequencyAndQ(sr, f, q)\n\ts.SetMode(m)\n\tx := []float32{x0}\n\ts.Process(x, 0)\n\treturn x[0]",
"""	if !(m >= 0 && m < 1) {
		return 0
	}
	s := filter.NewSVF(1)
	s.SetFrequencyAndQ(sr, f, q)
	o := s.ProcessSample(x0, 0)
	t := float32(4 * (m - math.Floor(m)))
	switch {
	case t < 1:
		return o.Lowpass + t*(o.Bandpass-o.Lowpass)
	case t < 2:
		return o.Bandpass + (t-1)*(o.Highpass-o.Bandpass)
	case t < 3:
		return o.Highpass + (t-2)*(o.Notch-o.Highpass)
	}
	return o.Notch + (t-3)*(o.Lowpass-o.Notch)""")
# DC blockers
out.append("""// a DC blocker of cutoff f: a zero at 1 and a pole just inside
func zzPole(f float32, sr float64) float32 {
	r := float32(1 - 2*3.14159265359*float64(f)/sr)
	if r < 0.9 {
		return 0.9
	}
	if r > 0.999 {
		return 0.999
	}
	return r
}

func zzBlock(r float32, x ...float32) []float32 {
	y := make([]float32, len(x))
	for i := range x {
		y[i] = x[i]
		if i > 0 {
			y[i] = x[i] - x[i-1] + r*y[i-1]
		}
	}
	return y
}
""")
R3="(float32, float32, float32)"
X3="x0, x1, x2 float32"
def rr(y): return f"{y}[0], {y}[1], {y}[2]"
eq("dc_new","f float32, sr float64, "+X3,R3,"\td := utility.NewDCBlocker(1, f, sr)\n\treturn d.Process(x0, 0), d.Process(x1, 0), d.Process(x2, 0)","\ty := zzBlock(zzPole(f, sr), x0, x1, x2)\n\treturn "+rr("y"))
eq("dc_set","f float32, sr float64, "+X3,R3,"\td := utility.NewDCBlocker(1, 20, 8000)\n\td.SetCutoff(f, sr)\n\treturn d.Process(x0, 0), d.Process(x1, 0), d.Process(x2, 0)","\ty := zzBlock(zzPole(f, sr), x0, x1, x2)\n\treturn "+rr("y"))
eq("dc_set_running","f float32, sr float64, x0, x1 float32","(float32, float32)","\td := utility.NewDCBlocker(1, 20, 8000)\n\ta := d.Process(x0, 0)\n\td.SetCutoff(f, sr)\n\treturn a, d.Process(x1, 0)","\treturn x0, x1 - x0 + zzPole(f, sr)*x0")
eq("dc_buffer","f float32, sr float64, "+X3,R3,"\td := utility.NewDCBlocker(1, f, sr)\n\tx := []float32{x0, x1, x2}\n\td.ProcessBuffer(x, 0)\n\treturn "+rr("x"),"\ty := zzBlock(zzPole(f, sr), x0, x1, x2)\n\treturn "+rr("y"))
eq("dc_simple","sr float64, "+X3,R3,"\td := utility.NewSimpleDCBlocker(sr)\n\tx := []float32{x0, x1, x2}\n\td.ProcessBuffer(x)\n\treturn "+rr("x"),"\ty := zzBlock(float32(1-2*3.14159265359*10/sr), x0, x1, x2)\n\treturn "+rr("y"))
R4="(float32, float32, float32, float32)"
L="\tl, r := []float32{a0, a1}, []float32{b0, b1}\n"
O="\treturn l[0], l[1], r[0], r[1]"
RH="\tr := zzPole(8, 1024)\n\ty, z := zzBlock(r, a0, a1), zzBlock(r, b0, b1)\n\treturn y[0], y[1], z[0], z[1]"
A="a0, a1, b0, b1 float32"
eq("dc_stereo",A,R4,"\td := utility.NewDCBlocker(2, 8, 1024)\n"+L+"\td.ProcessStereo(l, r)\n"+O,RH)
eq("dc_multi",A,R4,"\td := utility.NewDCBlocker(2, 8, 1024)\n"+L+"\td.ProcessMultiChannel([][]float32{l, r})\n"+O,RH)
eq("dc_interleaved",A,R4,"\td := utility.NewDCBlocker(2, 8, 1024)\n\ta, b := d.Process(a0, 0), d.Process(b0, 1)\n\treturn a, d.Process(a1, 0), b, d.Process(b1, 1)",RH)
eq("dc_extra",A,R4,"\td := utility.NewDCBlocker(1, 8, 1024)\n"+L+"\td.ProcessMultiChannel([][]float32{l, r})\n"+O,"\ty := zzBlock(zzPole(8, 1024), a0, a1)\n\treturn y[0], y[1], b0, b1")
eq("dc_mono_stereo",A,R4,"\td := utility.NewDCBlocker(1, 8, 1024)\n"+L+"\td.ProcessStereo(l, r)\n"+O,"\treturn a0, a1, b0, b1")
eq("dc_reset",A,R4,"\td := utility.NewDCBlocker(2, 8, 1024)\n\td.ProcessStereo([]float32{a1, b0}, []float32{b1, a0})\n\td.Reset()\n"+L+"\td.ProcessStereo(l, r)\n"+O,RH)
import subprocess
p='/verif/sa/refs/c11_filter.go.txt'
t=subprocess.run(['gofmt'],input="\n".join(out),capture_output=True,text=True)
print(t.stderr)
open(p,'w').write(t.stdout)
