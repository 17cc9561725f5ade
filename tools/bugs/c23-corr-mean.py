prop="C23"
needs='two channels whose mean levels (DC offsets) differ, with signal on both'
breaks='the power of the right channel keeps its mean, so a DC offset on one side changes the correlation'
edits=[("pkg/dsp/analysis/correlation.go","""		varR += diffR * diffR
""","""		varR += diffR * cm.bufferR[i] + meanR*meanR
""")]
pkg="pkg/dsp/analysis"
test='''
package analysis

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	m := NewCorrelationMeter(4, 100)
	m.SetAveraging(0)
	m.Process([]float64{1, 2, 4, 3}, []float64{11, 12, 14, 13})
	if c := m.GetCorrelation(); math.Abs(c-1) > 1e-6 {
		t.Fatal(c)
	}
}
'''
