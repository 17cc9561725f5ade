prop="C21"
needs="a fractional bit depth"
breaks="the bit depth is taken down to a whole number, so the steps of a fractional depth are too coarse and its automation jumps"
edits=[("pkg/dsp/distortion/bitcrusher.go","""	scaled := dithered * 0.5 * levels
""","""	if b.bitDepth < 4.0 {
		levels = math.Pow(2.0, math.Floor(b.bitDepth))
	}
	scaled := dithered * 0.5 * levels
""")]
pkg="pkg/dsp/distortion"
test='''
package distortion

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	b := NewBitcrusher(48000)
	b.SetBitDepth(3.5)
	x := 0.3
	n := math.Pow(2, 3.5)
	want := math.Round(x*n/2) / n * 2
	if y := b.Process(x); math.Abs(y-want) > 1e-9 {
		t.Fatal(y, want)
	}
}
'''
