prop="C15"
needs="a pink generator over at least one whole turn of its rows"
breaks="the row that is drawn anew is found from the wrong bit order, so rows change at the wrong rates and the running sum keeps a stale row"
edits=[("pkg/dsp/utility/noise.go","""		n.pinkRows[numZeros] = n.randomFloat()
		n.pinkRunningSum += n.pinkRows[numZeros]
""","""		n.pinkRunningSum += n.pinkRows[numZeros]
		n.pinkRows[numZeros] = n.randomFloat()
""")]
pkg="pkg/dsp/utility"
test='''
package utility

import (
	"math/rand"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	n := NewNoiseGenerator(PinkNoise)
	n.SetSeed(5)
	r := rand.New(rand.NewSource(5))
	draw := func() float32 { return float32(r.Float64()*2 - 1) }
	// the first sample is its first row and a white sample
	row, white := draw(), draw()
	if d := n.Next() - (row+white)/20; d > 1e-6 || d < -1e-6 {
		t.Fatal("off by", d)
	}
}
'''
