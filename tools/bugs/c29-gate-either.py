prop="C29"
needs='a programme between -70 and -60 LUFS with blocks below -70'
breaks='blocks below the absolute gate count wherever the relative gate lies lower'
edits=[("pkg/dsp/analysis/meters.go",'\t\tif block >= lm.integrated.absoluteGate && block >= relativeThreshold {\n','\t\tif block >= math.Min(lm.integrated.absoluteGate, relativeThreshold) && block >= relativeThreshold {\n')]
pkg="pkg/dsp/analysis"
test='''
package analysis

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	m := NewLUFSMeter(48000, 1)
	run := func(db float64, n int) {
		x := make([]float64, n)
		for i := range x {
			x[i] = math.Pow(10, db/20) * math.Sin(2*math.Pi*1000*float64(i)/48000)
		}
		m.Process(x)
	}
	run(-62, 96000)
	a := m.GetIntegratedLUFS()
	run(-69.5, 480000)
	if b := m.GetIntegratedLUFS(); math.Abs(a-b) > 0.7 {
		t.Fatal(a, b)
	}
}
'''
