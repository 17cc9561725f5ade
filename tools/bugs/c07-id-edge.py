prop="C07"
needs="a parameter registered explicitly with exactly the id that would be handed out next, then an automatic one"
breaks="RegisterWithID does not move the counter past an id equal to it, so the next automatic registration collides and is rejected"
edits=[("pkg/framework/param/registry_auto.go","""	if id >= r.nextID.Load() {
		r.nextID.Store(id + 1)
	}
	
	// Register
""","""	if id > r.nextID.Load() {
		r.nextID.Store(id + 1)
	}
	
	// Register
""")]
pkg="pkg/framework/param"
test='''
package param

import "testing"

func TestSeedDemo(t *testing.T) {
	r := NewAutoRegistry()
	if err := r.Register(New(0, "A").Build()); err != nil {
		t.Fatal(err)
	}
	if err := r.RegisterWithID(1, New(0, "B").Build()); err != nil {
		t.Fatal(err)
	}
	c := New(0, "C").Build()
	if err := r.Register(c); err != nil || r.GetByName("C") != c || c.ID == 1 {
		t.Errorf("automatic id after explicit: %v, id %d", err, c.ID)
	}
}
'''
