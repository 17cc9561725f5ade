prop="C27"
needs="a stereo gate whose signal returns during the release tail, compared with the mono gate on the same signal"
breaks="the stereo form of the gate closes a little later than its mono form: the release state ends at a different gain, so a returning signal between hysteresis and threshold is treated differently"
edits=[("pkg/dsp/dynamics/gate.go","""			g.gateOpen = true
		} else if g.state == gateStateRelease && g.currentGain <= g.targetGain*1.01 {
			g.state = gateStateClosed
		}

		// Update gain reduction
""","""			g.gateOpen = true
		} else if g.state == gateStateRelease && g.currentGain <= g.targetGain*1.05 {
			g.state = gateStateClosed
			g.currentGain = g.targetGain
		}

		// Update gain reduction
""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import "testing"

func TestSeedDemo(t *testing.T) {
	a, b := NewGate(48000), NewGate(48000)
	for _, g := range []*Gate{a, b} {
		g.SetThreshold(-20)
		g.SetHold(0)
		g.SetAttack(0.001)
		g.SetRelease(0.005)
	}
	n := 4000
	in, o1, l, r := make([]float32, n), make([]float32, n), make([]float32, n), make([]float32, n)
	for i := range in {
		in[i] = 0.00001
		if i < 500 {
			in[i] = 0.5
		}
	}
	a.ProcessBuffer(in, o1)
	b.ProcessStereo(in, in, l, r)
	for i := range in {
		if o1[i] != l[i] || o1[i] != r[i] {
			t.Fatalf("sample %d: mono %v stereo %v", i, o1[i], l[i])
		}
	}
}
'''
