prop="C30"
needs="an oscillator set to a huge phase (1e40, infinite)"
breaks="the phase is wrapped by subtracting 1 until it is below 1, which never ends once the phase is too large for 1 to matter"
edits=[("pkg/dsp/oscillator/oscillator.go","""	o.phase = phase - math.Floor(phase) // Wrap to 0-1
""","""	for phase >= 1.0 {
		phase -= 1.0
	}
	o.phase = phase - math.Floor(phase) // Wrap to 0-1
""")]
pkg="pkg/dsp/oscillator"
test='''
package oscillator

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	o := New(48000)
		done := make(chan bool, 1)
	go func() { o.SetPhase(1e40); done <- true }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("SetPhase does not return")
	}
}
'''
