prop="C07"
needs="a parameter registered, the registry cleared, and a parameter of the same name registered again"
breaks="Clear empties the ids but keeps the names, so a registry that was cleared takes the old id for a known name and leaves the parameter out of the order"
edits=[("pkg/framework/param/registry_auto.go","""	r.order = make([]uint32, 0)
	r.nameToID = make(map[string]uint32)
	r.nextID.Store(0)""","""	r.order = r.order[:0]
	r.nextID.Store(0)""")]
pkg="pkg/framework/param"
test='''
package param

import "testing"

func TestSeedDemo(t *testing.T) {
	r := NewAutoRegistry()
	r.Register(New(0, "A").Build(), New(0, "B").Build())
	r.Clear()
	b := New(0, "B").Build()
	r.Register(b)
	if r.Count() != 1 || b.ID != 0 || r.GetByName("B") != b {
		t.Errorf("count %d, id %d", r.Count(), b.ID)
	}
}
'''
