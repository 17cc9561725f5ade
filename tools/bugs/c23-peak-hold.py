prop="C23"
needs="a peak meter fed in blocks of more than one sample, and a hold time"
breaks="the hold counts blocks instead of samples, so it lasts as many times too long as a block has samples"
edits=[("pkg/dsp/analysis/meters.go","""		pm.holdCount -= len(samples)
""","""		pm.holdCount -= min(len(samples), 1)
""")]
pkg="pkg/dsp/analysis"
test='''
package analysis

import "testing"

func TestSeedDemo(t *testing.T) {
	m := NewPeakMeter(1000)
	m.SetHoldTime(1)
	m.Process([]float64{1})
	for i := 0; i < 20; i++ {
		m.Process(make([]float64, 100))
	}
	if m.GetHold() > 0.5 {
		t.Fatal(m.GetHold())
	}
}
'''
