prop="C12"
needs="a poly pressure event in a queue that is shifted"
breaks="OffsetEvents rebuilds poly pressure events as channel pressure ones, so the note is lost"
edits=[("pkg/midi/queue.go","""		case PolyPressureEvent:
			e.Offset += offset
			q.events[i] = e
""","""		case PolyPressureEvent:
			e.Offset += offset
			q.events[i] = ChannelPressureEvent{BaseEvent: e.BaseEvent, Pressure: e.Pressure}
""")]
pkg="pkg/midi"
test='''
package midi

import "testing"

func TestSeedDemo(t *testing.T) {
	q := NewEventQueue()
	q.Add(PolyPressureEvent{BaseEvent: BaseEvent{EventChannel: 3, Offset: 10}, NoteNumber: 64, Pressure: 5})
	q.OffsetEvents(-10)
	e, ok := q.GetAllEvents()[0].(PolyPressureEvent)
	if !ok || e.NoteNumber != 64 || e.Offset != 0 {
		t.Errorf("got %v", q.GetAllEvents()[0])
	}
}
'''
