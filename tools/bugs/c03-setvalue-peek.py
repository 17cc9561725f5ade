prop="C03"
needs="one thread setting a parameter to the value it already has while another writes it"
breaks="SetValue compares the stored bits with a plain read before storing, a data race with other writers"
edits=[("pkg/framework/param/parameter.go","""	atomic.StoreUint64(&p.value, float64bits(value))""","""	bits := float64bits(value)
	if p.value == bits {
		// Nothing to publish
		return
	}
	atomic.StoreUint64(&p.value, bits)""")]
pkg="pkg/framework/param"
flags="-race"
test='''
package param

import (
	"sync"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	p := New(1, "Gain").Range(0, 1).Build()
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				p.SetValue(float64((i+k)%7) / 7)
				_ = p.GetValue()
			}
		}(k)
	}
	wg.Wait()
}
'''
