prop="C24"
needs="an output list with an auxiliary bus before a main one, such as the crossover template"
breaks="SetBusActive counts main buses before auxiliary ones, while GetBusInfo counts in the order they were added, so another bus is switched"
edits=[("pkg/framework/bus/bus.go","""	busIndex := int32(0)
	for i := range buses {
		if buses[i].Direction == direction {
			if busIndex == index {
				buses[i].IsActive = active
				return nil
			}
			busIndex++
		}
	}
""","""	busIndex := int32(0)
	for _, kind := range []Type{TypeMain, TypeAux} {
		for i := range buses {
			if buses[i].Direction == direction && buses[i].BusType == kind {
				if busIndex == index {
					buses[i].IsActive = active
					return nil
				}
				busIndex++
			}
		}
	}
""")]
pkg="pkg/framework/bus"
test='''
package bus

import "testing"

func TestSeedDemo(t *testing.T) {
	c := NewCrossover(2)
	if err := c.SetBusActive(MediaTypeAudio, DirectionOutput, 0, true); err != nil {
		t.Fatal(err)
	}
	if !c.GetBusInfo(MediaTypeAudio, DirectionOutput, 0).IsActive {
		t.Fatal("output 0 is still off")
	}
}
'''
