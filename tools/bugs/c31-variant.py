prop="C31"
needs='an id whose hash has a ninth byte with its second bit set (about half of all ids)'
breaks='the variant bits of the class id are 11 for some ids: no UUID of RFC 4122, and not the id hosts have stored'
edits=[("pkg/framework/plugin/info.go",'	uuidVariantMask = 0x3f\n','	uuidVariantMask = 0x7f\n')]
pkg="pkg/framework/plugin"
test='''
package plugin

import (
	"fmt"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		u := (&Info{ID: fmt.Sprintf("com.acme.plugin%d", i)}).UID()
		if u[8]&0xc0 != 0x80 || u[6]&0xf0 != 0x40 {
			t.Fatalf("%d: %x", i, u)
		}
	}
}
'''
