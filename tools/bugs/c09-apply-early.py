prop="C09"
needs="a saved state cut within its last parameter or its custom data flag"
breaks="loading a damaged state fails but leaves some parameters changed"
edits=[("pkg/framework/state/manager.go","""	// Check for custom data
	var hasCustom uint32
	if err := binary.Read(r, binary.LittleEndian, &hasCustom); err != nil {
		return err
	}

""",""),("pkg/framework/state/manager.go","""	if hasCustom != 0 {
""","""	// Check for custom data
	var hasCustom uint32
	if err := binary.Read(r, binary.LittleEndian, &hasCustom); err != nil {
		return err
	}

	if hasCustom != 0 {
""")]
pkg="pkg/framework/state"
test='''
package state

import (
	"bytes"
	"testing"

	"github.com/justyntemme/vst3go/pkg/framework/param"
)

func TestSeedDemo(t *testing.T) {
	r := param.NewRegistry()
	p := &param.Parameter{ID: 3, Max: 1}
	r.Add(p)
	p.SetValue(0.25)
	var b bytes.Buffer
	m := NewManager(r)
	if err := m.Save(&b); err != nil {
		t.Fatal(err)
	}
	p.SetValue(0.75)
	if m.Load(bytes.NewReader(b.Bytes()[:b.Len()-1])) == nil {
		t.Fatal("a truncated state was accepted")
	}
	if p.GetValue() != 0.75 {
		t.Fatal("a refused state changed a parameter: ", p.GetValue())
	}
}
'''
