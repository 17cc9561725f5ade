prop="C14"
needs="a fractional delay read when the older neighbour lies at the very end of the buffer"
breaks="interpolation across the end of the buffer uses the same sample twice"
edits=[("pkg/dsp/delay/delay.go","""	s2 := d.buffer[(readPosInt+1)%d.bufferSize]
""","""	s2 := s1
	if readPosInt+1 < d.bufferSize {
		s2 = d.buffer[readPosInt+1]
	}
""")]
pkg="pkg/dsp/delay"
test='''
package delay

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	l := New(7, 1)
	for i := 0; i < 40; i++ {
		y := l.Process(float32(i), 2.5)
		if want := float64(i) - 2.5; i > 4 && math.Abs(float64(y)-want) > 1e-4 {
			t.Fatal(i, y, want)
		}
	}
}
'''
