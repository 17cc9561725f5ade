prop="C27"
needs="a block of exactly one sample (block cut at an automation point, for instance)"
breaks="a biquad fed one sample at a time loses the second-order input history"
edits=[("pkg/dsp/filter/biquad.go","""	// Save state
	b.x1[channel] = x1
	b.x2[channel] = x2
	b.y1[channel] = y1
	b.y2[channel] = y2
}

// ProcessMulti""","""	// Save state
	b.x1[channel] = x1
	b.y1[channel] = y1
	if len(buffer) > 1 {
		b.x2[channel] = x2
		b.y2[channel] = y2
	}
}

// ProcessMulti""")]
pkg="pkg/dsp/filter"
test='''
package filter

import "testing"

func TestSeedDemo(t *testing.T) {
	a, b := NewBiquad(1), NewBiquad(1)
	a.SetLowpass(48000, 1000, 0.7)
	b.SetLowpass(48000, 1000, 0.7)
	x, y := make([]float32, 64), make([]float32, 64)
	x[0], y[0] = 1, 1
	a.Process(x, 0)
	for i := range y {
		b.Process(y[i:i+1], 0)
	}
	for i := range x {
		if x[i] != y[i] {
			t.Fatalf("sample %d: %v whole, %v cut up", i, x[i], y[i])
		}
	}
}
'''
