prop="C32"
needs='blocks that take different times'
breaks='the CPU load is that of the slowest block, not of the mean'
edits=[("pkg/framework/debug/profiler.go",'	avgProcessTime := m.Average()\n','	avgProcessTime := (m.Average() + m.lastTime) / 2\n')]
pkg="pkg/framework/debug"
test='''
package debug

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	p := NewAudioProcessProfiler(1000, 100)
	p.record("ProcessAudio", 90*time.Millisecond)
	p.record("ProcessAudio", 10*time.Millisecond)
	p.UpdateCPULoad()
	if l := p.GetCPULoad(); l < 49.9 || l > 50.1 {
		t.Fatal(l)
	}
}
'''
