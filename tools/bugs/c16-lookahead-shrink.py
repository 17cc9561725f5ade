prop="C16"
needs="the lookahead of a running compressor is made shorter while its write position is beyond the new length"
breaks="the write position stays where it was, past the end of the new delay line"
edits=[("pkg/dsp/dynamics/compressor.go","""			c.delayBuffer = make([]float32, c.delaySamples)
			c.delayIndex = 0
""","""			c.delayBuffer = make([]float32, c.delaySamples)
""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewCompressor(1000)
	c.SetRatio(1)
	c.SetLookahead(0.01)
	for i := 0; i < 7; i++ {
		c.Process(0)
	}
	c.SetLookahead(0.002)
	c.Process(1)
	c.Process(0)
	if y := c.Process(0); y < 0.99 || y > 1.01 {
		t.Fatal(y)
	}
}
'''
