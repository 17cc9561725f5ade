prop="C13"
needs='a one-pole parameter that starts within a thousandth of its new target'
breaks='the parameter stays where it is when the step left is small, so small changes never arrive'
edits=[("pkg/dsp/utility/parameter.go",'''	s.current += (s.target - s.current) * s.smoothing
	return s.current
}''','''	step := (s.target - s.current) * s.smoothing
	if math.Abs(step) < 1e-6 && s.current != 0 {
		return s.current // too small to hear
	}
	s.current += step
	return s.current
}''')]
pkg="pkg/dsp/utility"
test='''
package utility

import "testing"

func TestSeedDemo(t *testing.T) {
	p := NewSmoothParameter(0.05, 48000)
	p.SetImmediate(0.5)
	p.SetTarget(0.501)
	for i := 0; i < 480000; i++ {
		p.Process()
	}
	if p.IsSmoothing() {
		t.Fatal(p.GetCurrent())
	}
}
'''
