prop="C23"
needs='linear averaging before as many frames have been taken as it averages'
breaks='the average divides by its length rather than by the frames it holds, so it starts too low and climbs'
edits=[("pkg/dsp/analysis/spectrum.go",'\t\t\t\tsa.outputBuffer[i] = sum / float64(sa.avgCount)\n','\t\t\t\tsa.outputBuffer[i] = sum / float64(len(sa.avgBuffer))\n')]
pkg="pkg/dsp/analysis"
test='''
package analysis

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	s := NewSpectrumAnalyzer(8, 8000, RectangularWindow)
	s.SetAveraging(LinearAveraging, 4)
	x := make([]float64, 8)
	for i := range x {
		x[i] = 1
	}
	s.Process(x)
	if r := s.GetSpectrum(); math.Abs(r[0]-8) > 1e-6 {
		t.Fatal(r)
	}
}
'''
