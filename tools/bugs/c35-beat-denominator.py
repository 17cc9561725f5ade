prop="C35"
needs="a time signature with a denominator other than 4 and a position before the project start"
breaks="the position in the beat is taken from the bar in quarter notes rounded to whole quarters first, so in 6/8 it is off by half a beat"
edits=[("pkg/framework/process/context.go","""		quarterNotesPerBeat := 4.0 / float64(t.TimeSigDenominator)
		beatPosition := (positionInBar""","""		quarterNotesPerBeat := float64(4 / t.TimeSigDenominator)
		if quarterNotesPerBeat == 0 {
			quarterNotesPerBeat = 1
		}
		beatPosition := (positionInBar""")]
pkg="pkg/framework/process"
test='''
package process

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	tr := &TransportInfo{HasMusicalTime: true, HasBarPosition: true, HasTimeSignature: true,
		TimeSigNumerator: 6, TimeSigDenominator: 8, ProjectTimeMusic: 4.25, BarPositionMusic: 3}
	if p := tr.GetBeatPosition(); math.Abs(p-0.5) > 1e-9 {
		t.Fatal(p)
	}
}
'''
