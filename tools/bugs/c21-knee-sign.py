prop="C21"
needs="a tube saturator driven so that a negative value falls between 0.7 and 0.8 inside it"
breaks="the knee of the compression curve loses the sign, so a negative value inside it comes out positive"
edits=[("pkg/dsp/distortion/tube.go","""		return math.Copysign(threshold+(absX-threshold)*compression, x)
""","""		return threshold + (absX-threshold)*compression
""")]
pkg="pkg/dsp/distortion"
test='''
package distortion

import "testing"

func TestSeedDemo(t *testing.T) {
	tube := NewTubeSaturation()
	tube.SetWarmth(0)
	tube.SetHysteresis(0)
	tube.SetHarmonics(0)
	for x := -2.0; x < 0; x += 0.01 {
		tube.Reset()
		if y := tube.Process(x); y > 0 {
			t.Fatal(x, y)
		}
	}
}
'''
