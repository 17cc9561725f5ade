prop="C20"
needs="two phasers alive at once"
breaks="all phasers take their first all-pass stages from a package-level bank, so two instances share filter state"
edits=[("pkg/dsp/modulation/phaser.go","""// NewPhaser creates a new phaser effect
""","""// firstStage is the input stage every phaser starts with
var firstStage = &AllPassFilter{}

// NewPhaser creates a new phaser effect
"""),("pkg/dsp/modulation/phaser.go","""		p.filters[i] = NewAllPassFilter()
""","""		if i == 0 && p.stages > 4 {
			p.filters[i] = firstStage
			continue
		}
		p.filters[i] = NewAllPassFilter()
""")]
pkg="pkg/dsp/modulation"
test='''
package modulation

import "testing"

func TestSeedDemo(t *testing.T) {
	run := func(other bool) float32 {
		a, b := NewPhaser(48000), NewPhaser(48000)
		a.SetStages(6)
		b.SetStages(6)
		var y float32
		for i := 0; i < 64; i++ {
			y = a.Process(float32(i%5) * 0.1)
			if other {
				b.Process(0.9)
			}
		}
		return y
	}
	a := run(false)
	if b := run(true); a != b {
		t.Fatalf("using another phaser changes the output: %v %v", a, b)
	}
}
'''
