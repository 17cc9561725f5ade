prop="C12"
needs="an event added with AddMultiple after the queue was read, at an earlier time than one already there"
breaks="AddMultiple keeps the sorted mark when the queue was sorted and the new events start after its first event, so a late block is delivered out of order"
edits=[("pkg/midi/queue.go","""	q.events = append(q.events, events...)
	q.sorted = false""","""	// Appending after the last event keeps the order
	if n := len(q.events); n > 0 && events[0].SampleOffset() < q.events[0].SampleOffset() {
		q.sorted = false
	} else if n == 0 {
		q.sorted = false
	}
	q.events = append(q.events, events...)""")]
pkg="pkg/midi"
test='''
package midi

import "testing"

func TestSeedDemo(t *testing.T) {
	q := NewEventQueue()
	q.Add(NoteOnEvent{BaseEvent: BaseEvent{Offset: 10}, NoteNumber: 1})
	q.Add(NoteOnEvent{BaseEvent: BaseEvent{Offset: 50}, NoteNumber: 2})
	q.GetAllEvents()
	q.AddMultiple([]Event{NoteOffEvent{BaseEvent: BaseEvent{Offset: 30}, NoteNumber: 1}})
	last := int32(-1)
	for _, e := range q.GetAllEvents() {
		if e.SampleOffset() < last {
			t.Errorf("event at %d after one at %d", e.SampleOffset(), last)
		}
		last = e.SampleOffset()
	}
	if n := len(q.GetEventsInRange(0, 40)); n != 2 {
		t.Errorf("%d events before 40", n)
	}
}
'''
