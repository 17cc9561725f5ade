prop="C22"
needs="a delay between two samples, read where the delay line wraps around"
breaks="a chorus takes the last cell of its delay line twice instead of going on at the first when it reads between them"
edits=[("pkg/dsp/modulation/chorus.go","""		idx2 := (readIdx + 1) % c.maxDelaySamples
""","""		idx2 := min(readIdx+1, c.maxDelaySamples-1)
""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	c := NewChorus(1000)
	c.SetVoices(1)
	c.SetDepth(0)
	c.SetDelay(2.5)
	c.SetMix(1)
	for i := 0; i < 300; i++ {
		y, _ := c.Process(float32(i))
		if i > 4 && math.Abs(float64(y)-(float64(i)-2.5)) > 0.01 {
			t.Fatal(i, y)
		}
	}
}
'''
