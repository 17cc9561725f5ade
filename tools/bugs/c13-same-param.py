prop="C13"
needs="two changes of one parameter at one sample offset in a block, with another in between"
breaks="AddParameterChange overwrites the last change when it is for the same offset, whatever parameter it is for, so a change is lost"
edits=[("pkg/framework/process/context.go","""	// Ensure we don't exceed pre-allocated space
""","""	// A later value at the same position replaces the earlier one
	if n := c.changeCount; n > 1 && c.paramChanges[n-1].SampleOffset == sampleOffset && c.paramChanges[n-2].ParamID == paramID {
		c.paramChanges[n-1].Value = value
		return
	}
	// Ensure we don't exceed pre-allocated space
""")]
pkg="pkg/framework/process"
test='''
package process

import (
	"testing"

	"github.com/justyntemme/vst3go/pkg/framework/param"
)

func TestSeedDemo(t *testing.T) {
	c := NewContext(64, param.NewRegistry())
	c.AddParameterChange(1, 0.1, 5)
	c.AddParameterChange(2, 0.2, 5)
	c.AddParameterChange(1, 0.3, 5)
	last := map[uint32]float64{}
	for _, x := range c.GetParameterChanges() {
		last[x.ParamID] = x.Value
	}
	if last[1] != 0.3 || last[2] != 0.2 {
		t.Fatalf("%v", last)
	}
}
'''
