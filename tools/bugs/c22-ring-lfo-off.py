prop="C22"
needs="the modulation of the carrier switched off after it ran"
breaks="the carrier keeps the frequency it last had instead of going back to the one that is set"
edits=[("pkg/dsp/modulation/ringmod.go","""	rm.lfoEnabled = enabled
	rm.updatePhaseIncrement()
""","""	was := rm.lfoEnabled
	rm.lfoEnabled = enabled
	if !was {
		rm.updatePhaseIncrement()
	}
""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import "testing"

func TestSeedDemo(t *testing.T) {
	r := NewRingModulator(1000)
	r.SetWaveform(WaveformSawtooth)
	r.SetFrequency(125)
	r.SetMix(1)
	r.EnableLFO(true)
	r.SetLFORate(20)
	r.SetLFODepth(1)
	for i := 0; i < 13; i++ {
		r.Process(1)
	}
	r.EnableLFO(false)
	a := r.Process(1)
	b := r.Process(1)
	d := b - a
	if d < 0 {
		d += 2
	}
	if d < 0.24 || d > 0.26 {
		t.Fatal(a, b, d)
	}
}
'''
