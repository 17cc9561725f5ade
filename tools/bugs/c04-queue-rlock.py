prop="C04"
needs="two threads reading the MIDI queue at once while it is unsorted"
breaks="GetAllEvents sorts the queue while holding only the read lock, so concurrent readers sort the same slice"
edits=[("pkg/midi/queue.go","""func (q *EventQueue) Size() int {
	q.mu.RLock()
	defer q.mu.RUnlock()
	return len(q.events)
}
""","""func (q *EventQueue) Size() int {
	q.mu.RLock()
	defer q.mu.RUnlock()
	if !q.sorted && len(q.events) > 1 {
		// Keep the next block's lookup cheap
		q.sortEvents()
	}
	return len(q.events)
}
""")]
pkg="pkg/midi"
flags="-race"
test='''
package midi

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		q := NewEventQueue()
		for i := 0; i < 200; i++ {
			q.Add(NoteOnEvent{BaseEvent: BaseEvent{Offset: int32(200 - i)}, NoteNumber: 60, Velocity: 1})
		}
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_ = q.Size()
				_ = q.IsEmpty()
			}()
		}
		wg.Wait()
	}
}
'''
