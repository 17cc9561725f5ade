prop="C29"
needs='any signal; only its absolute reading tells'
breaks='the shelf of the K-weighting keeps its poles and loses its zeros, so highs are not lifted by 4 dB'
edits=[("pkg/dsp/analysis/meters.go",'\t\tb1: 2.0 * (K*K - Vh) / a0,\n','\t\tb1: 2.0 * (K*K - Vb) / a0,\n')]
pkg="pkg/dsp/analysis"
test='''
package analysis

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	m := NewLUFSMeter(48000, 1)
	x := make([]float64, 48000)
	for i := range x {
		x[i] = math.Sin(2 * math.Pi * 997 * float64(i) / 48000)
	}
	m.Process(x)
	// a full-scale sine of 997 Hz on one channel reads -3.01
	if l := m.GetMomentaryLUFS(); math.Abs(l+3.01) > 0.05 {
		t.Fatal(l)
	}
}
'''
