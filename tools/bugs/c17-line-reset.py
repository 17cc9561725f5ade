prop="C17"
needs="more samples than one lap of the delay line before Reset"
breaks="Line.Reset clears only the part of the ring before the write position, so after a wrap old audio is heard again after Reset"
edits=[("pkg/dsp/delay/delay.go","""func (d *Line) Reset() {
	for i := range d.buffer {
""","""func (d *Line) Reset() {
	for i := range d.buffer[:d.writePos] {
""")]
pkg="pkg/dsp/delay"
test='''
package delay

import "testing"

func TestSeedDemo(t *testing.T) {
	d := New(0.01, 1000) // a short line
	n := d.bufferSize
	for i := 0; i < n+2; i++ {
		d.Write(1)
	}
	d.Reset()
	for i := 1; i < n; i++ {
		if v := d.Read(float64(i)); v != 0 {
			t.Fatalf("tap %d after Reset reads %v", i, v)
		}
	}
}
'''
