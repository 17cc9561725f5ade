prop="C06"
needs="a stepped parameter and a plain value that is not on a step"
breaks="SetPlainValue rounds to the parameter's steps, so Normalize and SetPlainValue disagree and the value read is not the value set"
edits=[("pkg/framework/param/parameter.go","""	normalized := (plain - p.Min) / (p.Max - p.Min)
	p.SetValue(normalized)""","""	normalized := (plain - p.Min) / (p.Max - p.Min)
	if p.StepCount > 1 {
		steps := float64(p.StepCount)
		normalized = float64(int64(normalized*steps+0.5)) / steps
	}
	p.SetValue(normalized)""")]
pkg="pkg/framework/param"
test='''
package param

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	p := New(1, "Mode").Range(0, 8).Steps(3).Build()
	for _, x := range []float64{0, 1, 2.5, 4, 7, 8} {
		p.SetPlainValue(x)
		if got := p.GetPlainValue(); math.Abs(got-x) > 1e-9 {
			t.Errorf("set %v, read %v", x, got)
		}
	}
}
'''
