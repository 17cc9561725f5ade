prop="C05"
needs="registering several parameters of which one is already known by name with its ID assigned"
breaks="Register returns from the conflict branch without releasing the registry lock, so the next call deadlocks"
edits=[("pkg/framework/param/registry_auto.go","""func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	
	// Check for conflicts
	if existing, exists := r.params[id]; exists {
		return fmt.Errorf("parameter ID %d already used by '%s'", id, existing.Name)
	}
""","""func (r *AutoRegistry) RegisterWithID(id uint32, param *Parameter) error {
	r.mu.Lock()
	
	// Check for conflicts
	if existing, exists := r.params[id]; exists {
		if existing == param {
			return nil
		}
		r.mu.Unlock()
		return fmt.Errorf("parameter ID %d already used by '%s'", id, existing.Name)
	}
	defer r.mu.Unlock()
""")]
pkg="pkg/framework/param"
test='''
package param

import (
	"testing"
	"time"
)

func TestSeedDemo(t *testing.T) {
	r := NewAutoRegistry()
	p := New(0, "Gain").Range(0, 1).Build()
	_ = r.RegisterWithID(3, p)
	_ = r.RegisterWithID(3, p)
	done := make(chan bool)
	go func() {
		_ = r.GetByName("Gain")
		r.Reserve(1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("registry is stuck")
	}
}
'''
