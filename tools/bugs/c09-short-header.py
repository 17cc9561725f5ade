prop="C09"
needs="a reader that hands out fewer bytes than asked for, as a host stream may"
breaks="a valid state is refused when the header arrives in pieces"
edits=[("pkg/framework/state/manager.go","""	if _, err := io.ReadFull(r, header); err != nil {
		return err
	}
""","""	if _, err := r.Read(header); err != nil {
		return err
	}
""")]
pkg="pkg/framework/state"
test='''
package state

import (
	"bytes"
	"testing"
	"testing/iotest"

	"github.com/justyntemme/vst3go/pkg/framework/param"
)

func TestSeedDemo(t *testing.T) {
	r := param.NewRegistry()
	p := &param.Parameter{ID: 3, Max: 1}
	r.Add(p)
	p.SetValue(0.25)
	var b bytes.Buffer
	m := NewManager(r)
	if err := m.Save(&b); err != nil {
		t.Fatal(err)
	}
	p.SetValue(0.75)
	if err := m.Load(iotest.OneByteReader(&b)); err != nil {
		t.Fatal(err)
	}
	if p.GetValue() != 0.25 {
		t.Fatal("not restored: ", p.GetValue())
	}
}
'''
