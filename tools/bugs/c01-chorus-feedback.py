prop="C01"
needs="a chorus with a feedback amount above 0.3 and more than one voice processing stereo audio"
breaks="Chorus.ProcessStereo builds a new per-voice slice for every sample once feedback is high, so the audio thread allocates"
edits=[("pkg/dsp/modulation/chorus.go","""	// Process each voice
	wetL := float32(0)
	wetR := float32(0)
""","""	// Process each voice
	wetL := float32(0)
	wetR := float32(0)

	// High feedback builds up level quickly with many voices: tame each tap
	var trim []float32
	if c.voices > 1 && c.feedback > 0.3 {
		trim = make([]float32, c.voices)
		for v := range trim {
			trim[v] = 1
		}
	}
"""),("pkg/dsp/modulation/chorus.go","""		// Apply stereo spread
		// For multiple voices""","""		if trim != nil {
			sampleL *= trim[v]
			sampleR *= trim[v]
		}

		// Apply stereo spread
		// For multiple voices""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewChorus(48000)
	c.SetVoices(3)
	c.SetFeedback(0.7)
	if n := testing.AllocsPerRun(200, func() { c.ProcessStereo(0.3, 0.2) }); n != 0 {
		t.Fatalf("%v allocations per sample", n)
	}
}
'''
