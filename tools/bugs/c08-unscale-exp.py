prop="C08"
needs="an exponential range given high to low (max < min)"
breaks="UnscaleParameterExp is no longer the inverse of ScaleParameterExp for descending ranges"
edits=[("pkg/dsp/utility/parameter.go","""	if min <= 0 || max <= 0 || max == min {
		// Fall back""","""	if min <= 0 || max <= min {
		// Fall back""")]
pkg="pkg/dsp/utility"
test='''
package utility

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for _, x := range []float64{0, 0.25, 0.5, 0.9} {
		y := UnscaleParameterExp(ScaleParameterExp(x, 20000, 20), 20000, 20)
		if math.Abs(x-y) > 1e-9 {
			t.Fatalf("%v there and back is %v", x, y)
		}
	}
}
'''
