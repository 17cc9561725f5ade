prop="C24"
needs="a configuration whose sidechain is switched through the bus GetSidechainBus returns"
breaks="GetSidechainBus returns a copy of the bus, so activating it changes nothing in the configuration"
edits=[("pkg/framework/bus/bus.go","""	for i, bus := range c.audioBuses {
		if bus.Direction == DirectionInput && bus.BusType == TypeAux {
			return &c.audioBuses[i]
		}
	}
	return nil""","""	for _, bus := range c.audioBuses {
		if bus.Direction == DirectionInput && bus.BusType == TypeAux {
			return &bus
		}
	}
	return nil""")]
pkg="pkg/framework/bus"
test='''
package bus

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewEffectStereoSidechain()
	c.GetSidechainBus().IsActive = true
	if n := c.GetActiveInputChannelCount(); n != 4 {
		t.Fatalf("%d active input channels", n)
	}
}
'''
