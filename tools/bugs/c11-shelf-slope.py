prop="C11"
needs="a high shelf with a large gain, near its corner"
breaks="the slope of the high shelf depends on its gain"
edits=[("pkg/dsp/filter/biquad.go","""	b0 := A * ((A + 1) + (A-1)*cosOmega + sqrtAAlpha)
""","""	if A > 2 {
		sqrtAAlpha = 2.0 * alpha
	}

	b0 := A * ((A + 1) + (A-1)*cosOmega + sqrtAAlpha)
""")]
pkg="pkg/dsp/filter"
test='''
package filter

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	b := NewBiquad(1)
	b.SetHighShelf(48000, 8000, 0.7, 24)
	x := []float32{1}
	b.Process(x, 0)
	w := 2 * math.Pi * 8000 / 48000
	A := math.Pow(10, 24.0/40)
	r := 2 * math.Sqrt(A) * math.Sin(w) / 1.4
	want := A * ((A + 1) + (A-1)*math.Cos(w) + r) / ((A + 1) - (A-1)*math.Cos(w) + r)
	if math.Abs(float64(x[0])-want) > 1e-3 {
		t.Fatal(x[0], want)
	}
}
'''
