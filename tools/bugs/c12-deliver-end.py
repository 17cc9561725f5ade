prop="C12"
needs='an event exactly at the end of a range handed to Context.ProcessEvents'
breaks='the event at the end of a range is delivered in that range and again in the next one'
edits=[("pkg/framework/process/context.go",'''	events := c.GetInputEvents(startSample, endSample)
	for _, event := range events {
		processor.ProcessEvent(event)
	}''','''	for _, event := range c.GetAllInputEvents() {
		if at := event.SampleOffset(); at < startSample || at > endSample {
			continue
		}
		processor.ProcessEvent(event)
	}''')]
pkg="pkg/framework/process"
test='''
package process

import (
	"testing"

	"github.com/justyntemme/vst3go/pkg/midi"
)

type seedSink struct{ n int }

func (s *seedSink) ProcessEvent(midi.Event) { s.n++ }

func TestSeedDemo(t *testing.T) {
	c := NewContext(64, nil)
	c.AddInputEvent(midi.NoteOnEvent{BaseEvent: midi.BaseEvent{Offset: 32}, NoteNumber: 60, Velocity: 100})
	s := &seedSink{}
	c.ProcessEvents(s, 0, 32)
	c.ProcessEvents(s, 32, 64)
	if s.n != 1 {
		t.Fatal(s.n)
	}
}
'''
