prop="C32"
needs='more timings of one section than the profiler keeps'
breaks='the last slot of the ring of timings is never written again once the ring has gone round'
edits=[("pkg/framework/debug/profiler.go",'	m.sampleIndex = (m.sampleIndex + 1) % p.maxSamples\n','''	m.sampleIndex++
	if m.sampleIndex >= p.maxSamples {
		m.sampleIndex = int(m.count) % p.maxSamples / p.maxSamples * m.sampleIndex
	} else if m.count > uint64(p.maxSamples) && m.sampleIndex == p.maxSamples-1 {
		m.sampleIndex = 0
	}
''')]
pkg="pkg/framework/debug"
test='''
package debug

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	p := NewProfiler(3)
	for i := 1; i <= 12; i++ {
		p.record("a", time.Duration(100-i))
	}
	m, _ := p.GetMeasurement("a")
	if got := m.Percentile(100); got != 90 {
		t.Fatal(got)
	}
}
'''
