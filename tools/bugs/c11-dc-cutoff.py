prop="C11"
needs='a cutoff changed while a signal is running, below the frequency at which the pole is limited'
breaks='a new cutoff restarts the blocker of the first channel'
edits=[("pkg/dsp/utility/dcblocker.go",'	dc.coefficient = R\n','	if R > dc.coefficient && len(dc.y1) > 0 {\n\t\tdc.y1[0] *= R\n\t}\n	dc.coefficient = R\n')]
pkg="pkg/dsp/utility"
test='''
package utility

import "testing"

func TestSeedDemo(t *testing.T) {
	a := NewDCBlocker(2, 40, 8000)
	a.Process(1, 0)
	a.Process(1, 1)
	a.SetCutoff(20, 8000)
	if l, r := a.Process(1, 0), a.Process(1, 1); l != r {
		t.Fatal(l, r)
	}
}
'''
