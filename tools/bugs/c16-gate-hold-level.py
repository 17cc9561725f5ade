prop="C16"
needs="a stereo gate in its hold period with a level between the closing and the opening threshold"
breaks="the stereo gate leaves its hold period only above the opening threshold, so a level it should stay open at closes it"
edits=[("pkg/dsp/dynamics/gate.go","""			if inputDB > g.threshold-g.hysteresis {
				g.state = gateStateOpen
			} else if""","""			if inputDB > g.threshold {
				g.state = gateStateOpen
			} else if""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import "testing"

func TestSeedDemo(t *testing.T) {
	g := NewGate(1000)
	g.SetThreshold(-20)
	g.SetHysteresis(12)
	g.SetHold(0.003)
	g.SetAttack(0)
	in := []float32{1, 1, 1, 0, 0.06, 0.06, 0.06, 0.06, 0.06, 0.06}
	a, b := make([]float32, len(in)), make([]float32, len(in))
	g.ProcessStereo(in, in, a, b)
	if g.GetState() != "open" {
		t.Fatal(g.GetState())
	}
}
'''
