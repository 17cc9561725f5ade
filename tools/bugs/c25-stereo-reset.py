prop="C25"
needs="a bypassed stereo chain that is reset, then switched on again"
breaks="Reset of a bypassed stereo chain leaves its processors with their old tails, which sound when the chain is switched on"
edits=[("pkg/framework/dsp/chain.go","""func (c *StereoChain) Reset() {
	for""","""func (c *StereoChain) Reset() {
	if c.bypass {
		return
	}
	for""")]
pkg="pkg/framework/dsp"
test='''
package dsp

import "testing"

type seedStereo struct{ tail float32 }

func (s *seedStereo) ProcessStereo(l, r []float32) { s.tail = l[0] }
func (s *seedStereo) Reset()                       { s.tail = 0 }

func TestSeedDemo(t *testing.T) {
	p := &seedStereo{tail: 1}
	c := NewStereoChain("c").Add(p)
	c.SetBypass(true)
	c.Reset()
	if p.tail != 0 {
		t.Fatal("the tail survived Reset")
	}
}
'''
