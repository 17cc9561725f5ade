#!/usr/bin/env python3
"""Writes sa/refs/c27_block.go.txt: block forms against sample forms."""
import os
out = []
eqs = []
def eq(name, params, lhs, rhs, ret=""):
    out.append(f"func Lhs_{name}({params}) {ret}{{\n{lhs}\n}}\n\nfunc Rhs_{name}({params}) {ret}{{\n{rhs}\n}}\n")
F32, F64 = "[]float32", "[]float64"

def inout(pkg, T, meth, samp, ty=F32, tag=""):
    n = f"{pkg}_{T}_{meth}{tag}"
    eq(n, f"p *{pkg}.{T}, in, out {ty}", f"p.{meth}(in, out)", f"for i := range in {{ out[i] = p.{samp}(in[i]) }}")
    eq(n + "_inplace", f"p *{pkg}.{T}, buf {ty}", f"p.{meth}(buf, buf)", f"for i := range buf {{ buf[i] = p.{samp}(buf[i]) }}")

def stereo(pkg, T, meth, samp, ty=F32):
    n = f"{pkg}_{T}_{meth}"
    eq(n, f"p *{pkg}.{T}, inL, inR, outL, outR {ty}", f"p.{meth}(inL, inR, outL, outR)",
       f"for i := range inL {{ outL[i], outR[i] = p.{samp}(inL[i], inR[i]) }}")
    eq(n + "_inplace", f"p *{pkg}.{T}, l, r {ty}", f"p.{meth}(l, r, l, r)",
       f"for i := range l {{ l[i], r[i] = p.{samp}(l[i], r[i]) }}")

def buf(pkg, T, call, body, params="", name=None, ty=F32):
    n = f"{pkg}_{T}_{name or call.split('(')[0]}"
    eq(n, f"p *{pkg}.{T}, buf {ty}{params}", f"p.{call}", f"for i := range buf {{ {body} }}")

# delay
buf("delay", "Line", "ProcessBuffer(buf, d)", "buf[i] = p.Process(buf[i], d)", ", d float64")
buf("delay", "Line", "ProcessBufferMix(buf, d, mix)", "x := buf[i]; buf[i] = x*(1-mix) + p.Process(x, d)*mix", ", d float64, mix float32")
buf("delay", "AllpassDelay", "ProcessBuffer(buf, d)", "buf[i] = p.Process(buf[i], d)", ", d float64")
buf("delay", "CombDelay", "ProcessBuffer(buf, d)", "buf[i] = p.Process(buf[i], d)", ", d float64")
buf("delay", "ModulatedDelay", "ProcessBuffer(buf)", "buf[i] = p.Process(buf[i])")
# distortion
for T in ("Bitcrusher", "TapeSaturation", "TubeSaturation", "Waveshaper"):
    inout("distortion", T, "ProcessBlock", "Process", F64)
    n = f"distortion_{T}_ProcessStereo_split"
    eq(n, f"p *distortion.{T}, inL, inR, outL, outR {F64}", "p.ProcessStereo(inL, inR, outL, outR)",
       "for i := range inL { p.ProcessStereo(inL[i:i+1], inR[i:i+1], outL[i:i+1], outR[i:i+1]) }")
for T in ("Waveshaper",):
    stereo_body = "for i := range inL { outL[i] = p.Process(inL[i]); outR[i] = p.Process(inR[i]) }"
    eq(f"distortion_{T}_ProcessStereo", f"p *distortion.{T}, inL, inR, outL, outR {F64}", "p.ProcessStereo(inL, inR, outL, outR)", stereo_body)
# modulation
for T in ("Flanger", "Phaser", "RingModulator", "Tremolo"):
    inout("modulation", T, "ProcessBuffer", "Process")
for T in ("Chorus", "Flanger", "Phaser", "RingModulator", "Tremolo"):
    stereo("modulation", T, "ProcessStereoBuffer", "ProcessStereo")
eq("modulation_Chorus_ProcessBuffer", "p *modulation.Chorus, in, outL, outR []float32", "p.ProcessBuffer(in, outL, outR)",
   "for i := range in { outL[i], outR[i] = p.Process(in[i]) }")
eq("modulation_LFO_ProcessBuffer", "p *modulation.LFO, out []float64", "p.ProcessBuffer(out)", "for i := range out { out[i] = p.Process() }")
# dynamics
for T in ("Compressor", "Expander", "Gate", "Limiter"):
    inout("dynamics", T, "ProcessBuffer", "Process")
    eq(f"dynamics_{T}_ProcessStereo_split", f"p *dynamics.{T}, inL, inR, outL, outR []float32", "p.ProcessStereo(inL, inR, outL, outR)",
       "for i := range inL { p.ProcessStereo(inL[i:i+1], inR[i:i+1], outL[i:i+1], outR[i:i+1]) }")
eq("dynamics_Compressor_ProcessSidechain_split", "p *dynamics.Compressor, in, side, out []float32", "p.ProcessSidechain(in, side, out)",
   "for i := range in { p.ProcessSidechain(in[i:i+1], side[i:i+1], out[i:i+1]) }")
# linked stereo of one signal is the mono form, heard twice
MK = {"Compressor": "p := dynamics.NewCompressor(48000)\np.SetLookahead(0)\np.SetThreshold(t)\np.SetRatio(a)\np.SetKnee(dynamics.KneeSoft, b)\np.SetMakeupGain(c)\n",
      "Expander": "p := dynamics.NewExpander(48000)\np.SetThreshold(t)\np.SetRatio(a)\np.SetKnee(b)\np.SetRange(c)\n",
      "Gate": "p := dynamics.NewGate(48000)\np.SetThreshold(t)\np.SetHysteresis(a)\np.SetHold(b)\np.SetRange(c)\n",
      "Limiter": "p := dynamics.NewLimiter(48000)\np.SetLookahead(0)\np.SetTruePeak(false)\np.SetThreshold(t)\n"}
for T in MK:
    eq(f"dynamics_{T}_ProcessStereo_linked", f"t, a, b, c float64, x, outL, outR []float32",
       MK[T] + "p.ProcessStereo(x, x, outL, outR)", MK[T] + "for i := range x { v := p.Process(x[i]); outL[i] = v; outR[i] = v }")
eq("dynamics_Compressor_ProcessSidechain_self", "t, a, b, c float64, in, out []float32",
   MK["Compressor"] + "p.ProcessSidechain(in, in, out)", MK["Compressor"] + "p.ProcessBuffer(in, out)")
# envelope
for T in ("ADSR", "AR"):
    buf("envelope", T, "Process(buf)", "buf[i] = p.Next()")
    buf("envelope", T, "ProcessMultiply(buf)", "buf[i] *= p.Next()")
inout("envelope", "Detector", "Process", "Detect")
inout("envelope", "Follower", "Process", "Follow")
eq("envelope_Detector_ProcessSidechain", "p *envelope.Detector, in, side, out []float32", "p.ProcessSidechain(in, side, out)",
   "for i := range in { out[i] = p.Detect(side[i]) }")
# oscillator
for w in ("Sine", "Saw", "Square", "Triangle"):
    buf("oscillator", "Oscillator", f"Process{w}(buf)", f"buf[i] = p.{w}()")
buf("oscillator", "Oscillator", "ProcessPulse(buf, w)", "buf[i] = p.Pulse(w)", ", w float64")
buf("oscillator", "BandLimitedSaw", "Process(buf)", "buf[i] = p.Next()")
# utility
buf("utility", "NoiseGenerator", "Generate(buf)", "buf[i] = p.Next()")
buf("utility", "NoiseGenerator", "GenerateAdd(buf, g)", "buf[i] += p.Next() * g", ", g float32")
buf("utility", "GaussianNoise", "Generate(buf)", "buf[i] = p.Next()")
buf("utility", "SimpleDCBlocker", "ProcessBuffer(buf)", "buf[i] = p.Process(buf[i])")
DC = "p := utility.NewDCBlocker(2, cut, sr)\n"
eq("utility_DCBlocker_ProcessBuffer", "cut float32, sr float64, buf []float32", DC + "p.ProcessBuffer(buf, 1)", DC + "for i := range buf { buf[i] = p.Process(buf[i], 1) }")
eq("utility_DCBlocker_ProcessStereo", "cut float32, sr float64, l, r []float32", DC + "p.ProcessStereo(l, r)",
   DC + "for i := range l { l[i] = p.Process(l[i], 0) }; for i := range r { r[i] = p.Process(r[i], 1) }")
eq("utility_DCBlocker_ProcessMultiChannel", "cut float32, sr float64, l, r []float32", DC + "p.ProcessMultiChannel([][]float32{l, r})",
   DC + "for i := range l { l[i] = p.Process(l[i], 0) }; for i := range r { r[i] = p.Process(r[i], 1) }")
# filter
for m, fld in (("Lowpass", "Lowpass"), ("Highpass", "Highpass"), ("Bandpass", "Bandpass"), ("Notch", "Notch")):
    buf("filter", "SVF", f"Process{m}(buf, ch)", f"buf[i] = p.ProcessSample(buf[i], ch).{fld}", ", ch int")
buf("filter", "SVF", "ProcessMixed(buf, ch, a, b, c, d)",
    "o := p.ProcessSample(buf[i], ch); buf[i] = o.Lowpass*a + o.Highpass*b + o.Bandpass*c + o.Notch*d", ", ch int, a, b, c, d float32")
for T in ("Biquad", "MultiModeSVF"):
    eq(f"filter_{T}_Process_split", f"p *filter.{T}, buf []float32, ch int", "p.Process(buf, ch)", "for i := range buf { p.Process(buf[i:i+1], ch) }")
eq("filter_Biquad_ProcessMulti_one", "p *filter.Biquad, buf []float32", "p.ProcessMulti([][]float32{buf})",
   "if p.Channels() > 0 { p.Process(buf, 0) }") if False else None
# mix, gain, pan, interpolation, dsp
eq("mix_DryWetBuffer", "a, b []float32, x float32", "mix.DryWetBuffer(a, b, x)",
   "n := len(a); if len(b) < n { n = len(b) }; for i := 0; i < n; i++ { a[i] = mix.DryWet(a[i], b[i], x) }")
N3 = "n := len(a); if len(b) < n { n = len(b) }; if len(dst) < n { n = len(dst) }\n"
eq("mix_DryWetBufferTo", "a, b []float32, x float32, dst []float32", "mix.DryWetBufferTo(a, b, x, dst)",
   N3 + "for i := 0; i < n; i++ { dst[i] = mix.DryWet(a[i], b[i], x) }")
for e, f in (("true", "Cosine"), ("false", "Linear")):
    eq(f"mix_CrossfadeBuffer_{f}", "a, b []float32, x float32, dst []float32", f"mix.CrossfadeBuffer(a, b, x, {e}, dst)",
       N3 + f"for i := 0; i < n; i++ {{ dst[i] = mix.Crossfade{f}(a[i], b[i], x) }}")
eq("gain_ApplyBuffer", "b []float32, g float32", "gain.ApplyBuffer(b, g)", "for i := range b { b[i] = gain.Apply(b[i], g) }")
eq("gain_ApplyDbBuffer", "b []float32, g float32", "gain.ApplyDbBuffer(b, g)", "for i := range b { b[i] = gain.ApplyDb(b[i], g) }")
eq("gain_ApplyBufferTo", "a []float32, g float32, dst []float32", "gain.ApplyBufferTo(a, g, dst)",
   "n := len(a); if len(dst) < n { n = len(dst) }\nfor i := 0; i < n; i++ { dst[i] = gain.Apply(a[i], g) }")
eq("gain_SoftClipBuffer", "b []float32, g float32", "gain.SoftClipBuffer(b, g)", "for i := range b { b[i] = gain.SoftClip(b[i], g) }")
eq("gain_HardClipBuffer", "b []float32, g float32", "gain.HardClipBuffer(b, g)", "for i := range b { b[i] = gain.HardClip(b[i], g) }")
eq("gain_FadeDb", "b []float32, s, e float32", "gain.FadeDb(b, s, e)", "gain.Fade(b, gain.DbToLinear32(s), gain.DbToLinear32(e))")
eq("pan_Process", "a []float32, p float32, law pan.Law, l, r []float32", "pan.Process(a, p, law, l, r)",
   "n := len(a); if len(l) < n { n = len(l) }; if len(r) < n { n = len(r) }\nfor i := 0; i < n; i++ { x, y := pan.MonoToStereo(p, law); s := a[i]; l[i] = s*x; r[i] = s*y }")
for f in ("Width", "Balance"):
    eq(f"pan_{f}_split", "a, b []float32, p float32, l, r []float32", f"pan.{f}(a, b, p, l, r)",
       "n := len(a); if len(b) < n { n = len(b) }; if len(l) < n { n = len(l) }; if len(r) < n { n = len(r) }\n"
       f"for i := 0; i < n; i++ {{ pan.{f}(a[i:i+1], b[i:i+1], p, l[i:i+1], r[i:i+1]) }}")
eq("pan_ProcessStereo_split", "a, b []float32, p float32, law pan.Law, l, r []float32", "pan.ProcessStereo(a, b, p, law, l, r)",
   "n := len(a); if len(b) < n { n = len(b) }; if len(l) < n { n = len(l) }; if len(r) < n { n = len(r) }\n"
   "for i := 0; i < n; i++ { pan.ProcessStereo(a[i:i+1], b[i:i+1], p, law, l[i:i+1], r[i:i+1]) }")
eq("pan_AutoPan_Process_split", "p *pan.AutoPan, a []float32, sr float32, l, r []float32", "p.Process(a, sr, l, r)",
   "n := len(a); if len(l) < n { n = len(l) }; if len(r) < n { n = len(r) }\n"
   "for i := 0; i < n; i++ { p.Process(a[i:i+1], sr, l[i:i+1], r[i:i+1]) }")
eq("interpolation_SmoothBuffer", "b []float32, t, k float32", "interpolation.SmoothBuffer(b, t, k)", "for i := range b { b[i] = interpolation.Smooth(b[i], t, k) }")
for f, p, c in (("Clip", "x float32", "x"), ("SoftClip", "x float32", "x"), ("Scale", "x float32", "x")):
    eq(f"dsp_{f}_split", f"b []float32, {p}", f"dsp.{f}(b, {c})", f"for i := range b {{ dsp.{f}(b[i:i+1], {c}) }}")
eq("dsp_Clear", "b []float32", "dsp.Clear(b)", "for i := range b { b[i] = 0 }")
eq("dsp_Add_scaled", "a, b []float32", "dsp.Add(a, b)", "dsp.AddScaled(a, b, 1)")
# adapters
for T, inner in (("CompressorAdapter", "dynamics.Compressor"), ("GateAdapter", "dynamics.Gate")):
    n = inner.split(".")[1]
    eq(f"framework_{T}", f"g *{inner}, buf []float32", f"fdsp.New{T}(g).Process(buf)", "g.ProcessBuffer(buf, buf)")
eq("framework_DCBlockerAdapter", "p *fdsp.DCBlockerAdapter, buf []float32", "p.Process(buf)", "for i := range buf { p.Process(buf[i:i+1]) }")
eq("framework_NoiseAdapter", "p *fdsp.NoiseAdapter, buf []float32", "p.Process(buf)", "for i := range buf { p.Process(buf[i:i+1]) }")
# smoothing
eq("param_Smoother_Process", "p *param.Smoother, buf []float32, f func(float64, float32) float32", "p.Process(buf, f)", "for i := range buf { buf[i] = f(p.Next(), buf[i]) }")

imports = {"delay": "pkg/dsp/delay", "distortion": "pkg/dsp/distortion", "modulation": "pkg/dsp/modulation", "dynamics": "pkg/dsp/dynamics",
    "envelope": "pkg/dsp/envelope", "oscillator": "pkg/dsp/oscillator", "utility": "pkg/dsp/utility", "filter": "pkg/dsp/filter", "mix": "pkg/dsp/mix",
    "gain": "pkg/dsp/gain", "pan": "pkg/dsp/pan", "interpolation": "pkg/dsp/interpolation", "dsp": "pkg/dsp", "fdsp": "pkg/framework/dsp", "param": "pkg/framework/param"}
body = "\n".join(out)
imp = "\n".join(f'\t{k} "github.com/justyntemme/vst3go/{v}"' for k, v in imports.items() if k + "." in body)
dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "sa", "refs", "c27_block.go.txt")
open(dst, "w").write("// Generated by tools/refgen/c27.py: block forms against sample forms.\npackage zzvsaref\n\nimport (\n" + imp + "\n)\n\n" + body)
os.system(f"gofmt -w {dst} 2>/dev/null || (cp {dst} /tmp/x.go && gofmt /tmp/x.go > {dst})")
print(len(out), "equations")
