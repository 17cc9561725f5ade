prop="C02"
needs="a limiter driven more than 60 dB over its threshold"
breaks="the limiter logs to standard error from the audio thread when the input is far over the threshold"
edits=[("pkg/dsp/dynamics/limiter.go","""	gainReductionDB := 0.0
	if inputDB > l.threshold {
		gainReductionDB = inputDB - l.threshold
	}
	l.gainReduction = gainReductionDB

	// Apply gain reduction
""","""	gainReductionDB := 0.0
	if inputDB > l.threshold {
		gainReductionDB = inputDB - l.threshold
	}
	if gainReductionDB > 60 {
		warnOverload(gainReductionDB)
	}
	l.gainReduction = gainReductionDB

	// Apply gain reduction
"""),("pkg/dsp/dynamics/limiter.go","""// Process processes a single sample
func (l *Limiter) Process(""","""// warnOverload reports an implausible input level
func warnOverload(db float64) {
	os.Stderr.WriteString("limiter: overloaded input\\n")
}

// Process processes a single sample
func (l *Limiter) Process("""),("pkg/dsp/dynamics/limiter.go","""import (
	"math\"""","""import (
	"math"
	"os\"""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import (
	"os"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	saved, savedOut := os.Stderr, os.Stdout
	os.Stderr, os.Stdout = w, w
	l := NewLimiter(48000)
	l.SetThreshold(-20)
	for i := 0; i < 2000; i++ {
		l.Process(1e6)
	}
	os.Stderr, os.Stdout = saved, savedOut
	w.Close()
	buf := make([]byte, 64)
	if n, _ := r.Read(buf); n > 0 {
		t.Fatalf("wrote %q while processing", buf[:n])
	}
}
'''
