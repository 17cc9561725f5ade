prop="C26"
needs="all voices busy, the oldest of them on a higher index than an equally quiet one, in StealQuietest mode with an amplitude below the limit of a float32"
breaks="the quietest voice is looked for with amplitudes rounded to thousandths, so of two voices that differ by less the first is stolen instead of the quieter"
edits=[("pkg/framework/voice/allocator.go","""			amp := a.voices[i].GetAmplitude()
""","""			amp := float64(int(a.voices[i].GetAmplitude()*1000)) / 1000
""")]
pkg="pkg/framework/voice"
test='''
package voice

import "testing"

type seedVoice struct {
	on   bool
	note uint8
	amp  float64
}

func (v *seedVoice) IsActive() bool         { return v.on }
func (v *seedVoice) GetNote() uint8         { return v.note }
func (v *seedVoice) GetVelocity() uint8     { return 0 }
func (v *seedVoice) GetAmplitude() float64  { return v.amp }
func (v *seedVoice) GetAge() int64          { return 0 }
func (v *seedVoice) TriggerNote(n, _ uint8) { v.on, v.note = true, n }
func (v *seedVoice) ReleaseNote()           {}
func (v *seedVoice) Stop()                  { v.on = false }
func (v *seedVoice) Process([]float32)      {}

func TestSeedDemo(t *testing.T) {
	p, q := &seedVoice{}, &seedVoice{}
	a := NewAllocator([]Voice{p, q})
	a.SetStealingMode(StealQuietest)
	a.NoteOn(60, 100)
	a.NoteOn(64, 100)
	p.amp, q.amp = 0.0004, 0.0001
	quiet := q.note
	a.NoteOn(67, 100)
	if p.note == quiet || q.note == quiet {
		t.Fatal("the louder voice was stolen")
	}
}
'''
