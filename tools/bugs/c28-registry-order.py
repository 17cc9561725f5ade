prop="C28"
needs="more than one registered parameter (map iteration order)"
breaks="Registry.All walks the map instead of the registration order, so the order of parameters (and of a saved state) differs from run to run"
edits=[("pkg/framework/param/registry.go","""	result := make([]*Parameter, len(r.order))
	for i, id := range r.order {
		result[i] = r.params[id]
	}
""","""	result := make([]*Parameter, 0, len(r.order))
	for _, p := range r.params {
		result = append(result, p)
	}
""")]
pkg="pkg/framework/param"
test='''
package param

import "testing"

func TestSeedDemo(t *testing.T) {
	for try := 0; try < 20; try++ {
		r := NewRegistry()
		for id := uint32(0); id < 40; id++ {
			r.Add(New(100-id, "p").Build())
		}
		for i, p := range r.All() {
			if p.ID != 100-uint32(i) {
				t.Fatalf("parameter %d is %d", i, p.ID)
			}
		}
	}
}
'''
