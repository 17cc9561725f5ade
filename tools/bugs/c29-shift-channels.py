prop="C29"
needs='a measurement longer than 400 ms of more than one channel'
breaks='the window moves on by a half of its step, so old samples are measured twice and new ones in the wrong place'
edits=[("pkg/dsp/analysis/meters.go",'\t\t\tcopy(block.buffer, block.buffer[shift*lm.channels:])\n','\t\t\tcopy(block.buffer, block.buffer[shift:])\n')]
pkg="pkg/dsp/analysis"
test='''
package analysis

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	loud := func(n int) float64 {
		m := NewLUFSMeter(48000, 2)
		x := make([]float64, 2*n)
		for i := 0; i < n; i++ {
			if i >= n-19200 {
				x[2*i] = math.Sin(2 * math.Pi * 1000 * float64(i) / 48000)
			}
		}
		m.Process(x)
		return m.GetMomentaryLUFS()
	}
	if a, b := loud(19200), loud(19200+48000); math.Abs(a-b) > 0.1 {
		t.Fatal(a, b)
	}
}
'''
