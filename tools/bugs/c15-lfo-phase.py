prop="C15"
needs="an LFO over more than one turn at a rate that does not divide the sample rate"
breaks="the phase is set to zero at the wrap and loses its remainder, so the LFO runs slow"
edits=[("pkg/dsp/modulation/lfo.go","""		l.phase -= 1.0
""","""		l.phase = 0.0
""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import "testing"

func TestSeedDemo(t *testing.T) {
	l := NewLFO(100)
	l.SetFrequency(13)
	for i := 0; i < 997; i++ {
		l.Process()
	}
	// 129.61 turns
	if p := l.GetPhase(); p < 0.6099 || p > 0.6101 {
		t.Fatal("phase", p)
	}
}
'''
