prop="C15"
needs="a follower fed in blocks with a level that falls"
breaks="the block form compares with the sign of the input, so the negative half of a wave releases the envelope"
edits=[("pkg/dsp/envelope/envelope.go","""		if absInput > f.envelope {
			f.envelope = absInput + (f.envelope-absInput)*f.attackCoef
		} else {""","""		if float64(input[i]) > f.envelope {
			f.envelope = absInput + (f.envelope-absInput)*f.attackCoef
		} else {""")]
pkg="pkg/dsp/envelope"
test='''
package envelope

import "testing"

func TestSeedDemo(t *testing.T) {
	f, g := NewFollower(1000), NewFollower(1000)
	in, out := make([]float32, 50), make([]float32, 50)
	for i := range in {
		in[i] = float32(i%7)/7 - 0.6
	}
	f.Process(in, out)
	for i, x := range in {
		if d := g.Follow(x) - out[i]; d > 1e-6 || d < -1e-6 {
			t.Fatal(i, d)
		}
	}
}
'''
