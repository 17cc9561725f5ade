prop="C22"
needs="harmonic mode in stereo with the channels out of phase"
breaks="the right channel follows the wave of the left one"
edits=[("pkg/dsp/modulation/tremolo.go","""		gainR = 1.0 - t.depth*math.Abs(lfoR)
""","""		gainR = 1.0 - t.depth*math.Abs(lfoL)
""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	tr := NewTremolo(1000)
	tr.SetMode(TremoloModeHarmonic)
	tr.SetDepth(1)
	tr.SetStereoPhase(0.25)
	tr.SetStereo(true)
	l, r := tr.ProcessStereo(1, 1)
	if math.Abs(float64(l)-1) > 1e-6 || math.Abs(float64(r)) > 1e-6 {
		t.Fatal(l, r)
	}
}
'''
