prop="C11"
needs="a morph position between notch and lowpass"
breaks="the last part of the morph returns to the bandpass and jumps to the lowpass at the wrap"
edits=[("pkg/dsp/filter/svf.go","""		mode1, mode2 = 3, 0
""","""		mode1, mode2 = 3, (3+2)%4
""")]
pkg="pkg/dsp/filter"
test='''
package filter

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	run := func(mode float64) float64 {
		m := NewMultiModeSVF(1)
		m.SetFrequencyAndQ(48000, 3000, 2)
		m.SetMode(mode)
		x := []float32{1, 0.5, 0.25}
		m.Process(x, 0)
		return float64(x[2])
	}
	if d := math.Abs(run(0.9999) - run(0)); d > 1e-2 {
		t.Fatal("the morph jumps at its end: ", d)
	}
}
'''
