prop="C14"
needs="damping above zero and at least two turns of a comb's delay"
breaks="the comb's lowpass takes the damping the wrong way round only in its memory: the tail is duller than set"
edits=[("pkg/dsp/reverb/schroeder.go","""	c.filterstore = float32(float64(output)*c.damp2 + float64(c.filterstore)*c.damp1)
""","""	c.filterstore = float32(float64(output)*c.damp2 + float64(c.filterstore)*c.damp1*c.damp2)
""")]
pkg="pkg/dsp/reverb"
test='''
package reverb

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := NewCombFilter(1)
	c.SetFeedback(0)
	c.SetDamping(0.9)
	c.SetFeedback(0.5)
	// the lowpass has gain one for a constant: y = 1/(1-0.5)
	var y float32
	for i := 0; i < 2000; i++ {
		y = c.Process(1)
	}
	if math.Abs(float64(y)-2) > 1e-3 {
		t.Fatal("comb at rest:", y)
	}
}
'''
