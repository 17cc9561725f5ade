prop="C16"
needs="a stereo expander with the right channel louder and negative"
breaks="the level is the larger of the two samples, not of their sizes, so a channel on its negative half is taken for quiet"
edits=[("pkg/dsp/dynamics/expander.go","""		maxInput := float32(math.Max(math.Abs(float64(inputL[i])), math.Abs(float64(inputR[i]))))
""","""		maxInput := float32(math.Max(math.Abs(float64(inputL[i])), float64(inputR[i])))
""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import "testing"

func TestSeedDemo(t *testing.T) {
	e := NewExpander(1000)
	a, b := make([]float32, 3), make([]float32, 3)
	e.ProcessStereo([]float32{0, 0, 0}, []float32{-0.9, -0.9, -0.9}, a, b)
	if b[2] > -0.89 {
		t.Fatal(b)
	}
}
'''
