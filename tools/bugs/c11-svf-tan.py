prop="C11"
needs="a cutoff that is not small against the sample rate"
breaks="the prewarping is replaced by a polynomial, so high cutoffs of the state variable filter lie too low"
edits=[("pkg/dsp/filter/svf.go","""	omega := math.Tan(math.Pi * frequency / sampleRate)
""","""	w := math.Pi * frequency / sampleRate
	omega := w * (1 + w*w/3 + 2*w*w*w*w/15)
""")]
pkg="pkg/dsp/filter"
test='''
package filter

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	s := NewSVF(1)
	s.SetFrequencyAndQ(48000, 18000, 1)
	g := math.Tan(math.Pi * 18000 / 48000)
	want := g * g / (1 + g + g*g)
	if got := float64(s.ProcessSample(1, 0).Lowpass); math.Abs(got-want) > 1e-4 {
		t.Fatal(got, want)
	}
}
'''
