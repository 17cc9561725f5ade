prop="C23"
needs='polar data of a phase scope whose buffer is full and has wrapped'
breaks='the brightness is read by place instead of by age, so points and brightness are of different samples'
edits=[("pkg/dsp/analysis/phasescope.go",'\t\tbright[i] = ps.brightness[idx]\n','\t\tbright[i] = ps.brightness[i]\n')]
pkg="pkg/dsp/analysis"
test='''
package analysis

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	s := NewPhaseScope(4)
	s.SetDecay(0.5)
	s.Process([]float64{1, 1, 1, 1}, []float64{0, 0, 0, 0})
	s.Process([]float64{1}, []float64{0})
	_, _, b := s.GetPolarData()
	if math.Abs(b[0]-0.5) > 1e-9 || b[3] != 1 {
		t.Fatal(b)
	}
}
'''
