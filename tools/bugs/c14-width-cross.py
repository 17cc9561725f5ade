prop="C14"
needs="a width below one, where left and right tails differ"
breaks="the left channel gets its own tail in place of the right one's share, so the width narrows one side only"
edits=[("pkg/dsp/reverb/freeverb.go","""	outputL = outL*float32(f.wet1) + outR*float32(f.wet2) + inputL*float32(f.dry)
""","""	outputL = outL*float32(f.wet1+f.wet2) + inputL*float32(f.dry)
""")]
pkg="pkg/dsp/reverb"
test='''
package reverb

import "testing"

func TestSeedDemo(t *testing.T) {
	f := NewFreeverb(8000)
	f.SetWidth(0)
	l, r := f.ProcessStereo(1, 0.5)
	for i := 0; i < 3000; i++ {
		if d := l - r; d > 1e-7 || d < -1e-7 {
			t.Fatal("without width the tails differ at ", i, l, r)
		}
		l, r = f.ProcessStereo(0, 0)
	}
}
'''
