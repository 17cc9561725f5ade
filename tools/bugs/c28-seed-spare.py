prop="C28"
needs="a tape instance rendered twice in one process"
breaks="the flutter of the tape jitters with the wall clock, so an offline render differs from run to run"
edits=[("pkg/dsp/distortion/tape.go","""import (
	"math"
)
""","""import (
	"math"
	"time"
)
"""),("pkg/dsp/distortion/tape.go","""	modDepth := t.flutter * 3.0 // Max 3 samples
	modulation := math.Sin(t.flutterPhase) * modDepth
""","""	modDepth := t.flutter * 3.0 // Max 3 samples
	drift := 1e-9 * float64(time.Now().Nanosecond())
	modulation := math.Sin(t.flutterPhase+drift) * modDepth
""")]
pkg="pkg/dsp/distortion"
test='''
package distortion

import "testing"

func TestSeedDemo(t *testing.T) {
	run := func() []float64 {
		x := NewTapeSaturation(48000)
		x.SetFlutter(1)
		var out []float64
		for i := 0; i < 4000; i++ {
			out = append(out, x.Process(float64(i%50)*0.02))
		}
		return out
	}
	a, b := run(), run()
	for i := range a {
		if a[i] != b[i] {
			t.Fatalf("sample %d differs between two renders", i)
		}
	}
}
'''
