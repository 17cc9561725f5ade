prop="C21"
needs="a stereo signal through the tape whose channels differ"
breaks="the de-emphasis of the right channel pulls towards the left channel's state, so the left leaks into the right"
edits=[("pkg/dsp/distortion/tape.go","""	t.deEmphasisState[channel] += (x - t.deEmphasisState[channel]) * cutoff
""","""	t.deEmphasisState[channel] += (x - t.deEmphasisState[0]) * cutoff
""")]
pkg="pkg/dsp/distortion"
test='''
package distortion

import "testing"

func TestSeedDemo(t *testing.T) {
	tape := NewTapeSaturation(48000)
	tape.SetSaturation(0)
	in := []float64{0.5, 0.5, 0.5, 0.5}
	l, r := make([]float64, 4), make([]float64, 4)
	tape.ProcessStereo(in, make([]float64, 4), l, r)
	for _, y := range r {
		if y != 0 {
			t.Fatal(r)
		}
	}
}
'''
