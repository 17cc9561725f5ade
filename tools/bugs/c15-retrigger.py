prop="C15"
needs="a note triggered again while its release still sounds"
breaks="the attack starts from zero in place of where the envelope is, with a jump in the level"
edits=[("pkg/dsp/envelope/envelope.go","""	e.stage = StageAttack
	e.target = 1.0
""","""	if e.stage == StageRelease {
		e.value = 0.0
	}
	e.stage = StageAttack
	e.target = 1.0
""")]
pkg="pkg/dsp/envelope"
test='''
package envelope

import "testing"

func TestSeedDemo(t *testing.T) {
	e := New(1000)
	e.SetADSR(0.01, 0.01, 0.8, 1)
	e.Trigger()
	for i := 0; i < 400; i++ {
		e.Next()
	}
	e.Release()
	last := e.Next()
	e.Trigger()
	if next := e.Next(); next < last {
		t.Fatal("fell from", last, "to", next)
	}
}
'''
