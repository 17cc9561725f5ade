prop="C14"
needs="a sweep longer than one turn of the oscillator"
breaks="the phase is wrapped to zero and loses its remainder, so the sweep runs slow"
edits=[("pkg/dsp/delay/delay.go","""		m.lfoPhase -= 1.0
""","""		m.lfoPhase = 0.0
""")]
pkg="pkg/dsp/delay"
test='''
package delay

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	m := NewModulated(1, 1000)
	m.SetLFO(300, 10)
	m.SetCenterDelay(50)
	l := New(1, 1000)
	for i := 0; i < 300; i++ {
		x := float32(i % 17)
		d := 50 + 10*math.Sin(2*math.Pi*0.3*float64(i))
		if a, b := m.Process(x), l.Process(x, d); math.Abs(float64(a-b)) > 1e-2 {
			t.Fatal(i, a, b)
		}
	}
}
'''
