prop="C19"
needs="a sidechain buffer that contains negative samples"
breaks="Compressor.ProcessSidechain rectifies the caller's sidechain buffer in place"
edits=[("pkg/dsp/dynamics/compressor.go","""	for i := range input {
		// Detect from sidechain
		envelope := c.detector.Detect(sidechain[i])
""","""	key := sidechain
	for i := range input {
		// The detector works on the rectified key signal
		if key[i] < 0 {
			key[i] = -key[i]
		}
		envelope := c.detector.Detect(key[i])
""")]
pkg="pkg/dsp/dynamics"
test='''
package dynamics

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewCompressor(48000)
	in := []float32{0.1, 0.2, 0.3, 0.4}
	sc := []float32{0.5, -0.5, 0.25, -0.25}
	out := make([]float32, 4)
	c.ProcessSidechain(in, sc, out)
	for i, want := range []float32{0.5, -0.5, 0.25, -0.25} {
		if sc[i] != want {
			t.Fatalf("sidechain[%d] changed to %v", i, sc[i])
		}
	}
}
'''
