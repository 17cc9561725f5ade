prop="C10"
needs="a rate below 0.1 Hz"
breaks="slow rates are shown in mHz, which typing back in is refused"
edits=[("pkg/framework/param/builders.go","""			if v < 1.0 {
				return fmt.Sprintf("%.3f Hz", v)
			}
""","""			if v < 0.1 {
				return fmt.Sprintf("%.1f mHz", v*1000)
			}
			if v < 1.0 {
				return fmt.Sprintf("%.3f Hz", v)
			}
""")]
pkg="pkg/framework/param"
test='''
package param

import (
	"math"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	p := RateParameter(1, "Rate", 0.01, 10, 1).Build()
	at := p.Normalize(0.05)
	v, err := p.ParseValue(p.FormatValue(at))
	if err != nil || math.Abs(v-at) > 1e-3 {
		t.Fatal(p.FormatValue(at), v, err)
	}
}
'''
