prop="C08"
needs="in-place use (leftOut is leftIn), and a width other than 1"
breaks="stereo width applied in place computes the right side from the already widened left"
edits=[("pkg/dsp/pan/pan.go","""		mid := (leftIn[i] + rightIn[i]) * 0.5
		side := (leftIn[i] - rightIn[i]) * 0.5
		
		// Apply width
		side *= width
		
		// Convert back to L/R
		leftOut[i] = mid + side
		rightOut[i] = mid - side
""","""		mid := (leftIn[i] + rightIn[i]) * 0.5
		side := (leftIn[i] - rightIn[i]) * 0.5
		
		// Apply width and convert back to L/R
		leftOut[i] = mid + side*width
		rightOut[i] = rightIn[i] + (leftIn[i]-rightIn[i])*0.5 - side*width
""")]
pkg="pkg/dsp/pan"
test='''
package pan

import "testing"

func TestSeedDemo(t *testing.T) {
	l, r := []float32{1, 0.5}, []float32{0, -0.5}
	lo, ro := make([]float32, 2), make([]float32, 2)
	Width(l, r, 0.5, lo, ro)
	Width(l, r, 0.5, l, r)
	for i := range l {
		if d := l[i] - lo[i] + r[i] - ro[i]; d > 1e-6 || d < -1e-6 {
			t.Fatalf("sample %d: %v %v in place, %v %v not", i, l[i], r[i], lo[i], ro[i])
		}
	}
}
'''
