prop="C25"
needs="a parallel chain with two or more branches, the first of which is not silent"
breaks="the mix is built in the caller's buffer after the first branch, so later branches hear the first branch's result instead of the input"
edits=[("pkg/framework/dsp/chain.go","""		for i := range mix {
			mix[i] += temp[i] * p.gains[j]
		}
	}

	copy(buffer, mix)
""","""		for i := range mix {
			mix[i] += temp[i] * p.gains[j]
		}
		if j < len(p.chains)-1 && p.gains[j] == 0 {
			continue
		}
		if j == len(p.chains)-2 || j == len(p.chains)-1 {
			copy(buffer, mix)
		}
	}
""")]
pkg="pkg/framework/dsp"
flags=""
test='''
package dsp

import "testing"

func TestSeedDemo(t *testing.T) {
	p := NewParallelChain("p")
	for k := 0; k < 3; k++ {
		p.Add(ProcessorFunc(func(b []float32) {
			for i := range b {
				b[i] *= 2
			}
		}), 1)
	}
	b := []float32{1, 2}
	p.Process(b)
	if b[0] != 6 || b[1] != 12 {
		t.Fatal(b)
	}
}
'''
