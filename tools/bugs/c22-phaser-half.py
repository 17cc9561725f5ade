prop="C22"
needs="the second half of the sweep of a phaser, where its wave is below zero"
breaks="the wave is folded up below zero, so the sweep covers only the upper half of its range, twice as often"
edits=[("pkg/dsp/modulation/phaser.go","""	normalizedLFO := (lfoValue + 1.0) / 2.0 // 0 to 1
""","""	normalizedLFO := (math.Abs(lfoValue) + 1.0) / 2.0 // 0 to 1
""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	p := NewPhaser(8000)
	p.SetStages(2)
	p.SetFeedback(0)
	p.SetMix(1)
	p.SetDepth(1)
	p.SetRate(10)
	n := 0
	for i := 0; i < 599; i++ {
		p.Process(0)
	}
	y := float64(p.Process(1))
	want := func(f float64) float64 {
		k := math.Tan(math.Pi * f / 8000)
		a := (1 - k) / (1 + k)
		return a * a
	}
	if n == 0 && math.Abs(y-want(500)) > 0.02 {
		t.Fatal(y, want(500), want(1500))
	}
}
'''
