prop="C18"
needs="a detector whose response type is set after its attack or release time"
breaks="SetType keeps the coefficients of the type before, so settings made in another order give another envelope"
edits=[("pkg/dsp/envelope/detector.go","""	d.detType = detType
	d.updateCoefficients()
}""","""	if d.detType == TypeAnalog {
		d.envelope = 0
	}
	d.detType = detType
}"""),("pkg/dsp/envelope/detector.go","""func (d *Detector) SetMode(mode DetectorMode) {
	d.mode = mode
""","""func (d *Detector) SetMode(mode DetectorMode) {
	d.mode = mode
	d.updateCoefficients()
""")]
pkg="pkg/dsp/envelope"
test='''
package envelope

import "testing"

func TestSeedDemo(t *testing.T) {
	a, b := NewDetector(48000, ModePeak), NewDetector(48000, ModePeak)
	a.SetAttack(0.02)
	a.SetType(TypeAnalog)
	b.SetType(TypeAnalog)
	b.SetAttack(0.02)
	for i := 0; i < 1000; i++ {
		if p, q := a.Detect(0.5), b.Detect(0.5); p != q {
			t.Fatalf("sample %d: %v against %v", i, p, q)
		}
	}
}
'''
