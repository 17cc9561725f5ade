prop="C16"
needs="a limiter with true peak detection, and a quiet sample after a loud one"
breaks="the estimate keeps the largest peak seen as its last sample, so the limiter never recovers"
edits=[("pkg/dsp/dynamics/limiter.go","""	l.lastSample = current
	return peak
""","""	l.lastSample = peak
	return peak
""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import "testing"

func TestSeedDemo(t *testing.T) {
	l := NewLimiter(48000)
	l.SetThreshold(-12)
	l.SetLookahead(0)
	l.Process(1)
	for i := 0; i < 48000; i++ {
		l.Process(0.1)
	}
	if r := l.GetGainReduction(); r > 0.1 {
		t.Fatal(r)
	}
}
'''
