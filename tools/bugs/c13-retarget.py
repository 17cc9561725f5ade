prop="C13"
needs="a new target set in the middle of a linear ramp"
breaks="the step of a new linear ramp is measured from the previous target instead of from where the ramp is, so the ramp overshoots and jumps, or crawls"
F="pkg/framework/param/smoother.go"
edits=[(F,"""	s.target = target
	s.isSmoothing = true
	
	switch""","""	from := s.target
	s.target = target
	s.isSmoothing = true
	
	switch"""),(F,"""		s.step = target - s.current
		if""","""		s.step = target - from
		if""")]
pkg="pkg/framework/param"
test='''
package param

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	s := NewSmoother(LinearSmoothing, 10)
	s.SetTarget(1)
	for i := 0; i < 5; i++ {
		s.Next()
	}
	s.SetTarget(0)
	for i := 1; i <= 10; i++ {
		want := 0.5 - 0.05*float64(i)
		if got := s.Next(); math.Abs(got-want) > 1e-9 {
			t.Fatalf("step %d: %v, want %v", i, got, want)
		}
	}
	if s.Next(); s.IsSmoothing() {
		t.Fatal("still smoothing")
	}
}
'''
