prop="C16"
needs="a peak-hold detector whose level rises slowly (a long attack, no jump), then falls"
breaks="the hold counter is started again only when the envelope jumps onto a peak, so a slow rise is not held"
edits=[("pkg/dsp/envelope/detector.go","""					d.envelope = inputLevel
				}
			}
			d.holdCounter = int(d.hold * d.sampleRate) // Reset hold counter
		} else {""","""					d.envelope = inputLevel
					d.holdCounter = int(d.hold * d.sampleRate) // Reset hold counter
				}
			}
		} else {""")]
pkg="pkg/dsp/envelope"
test='''
package envelope

import "testing"

func TestSeedDemo(t *testing.T) {
	d := NewDetector(1000, ModePeakHold)
	d.SetTimeConstants(0.1, 0.01)
	d.SetHold(0.005)
	d.Detect(0.5)
	for i := 0; i < 20; i++ {
		d.Detect(0)
	}
	var e float32
	before := d.GetEnvelope()
	for i := 0; i < 3; i++ {
		e = d.Detect(before * 1.4)
		before = e
	}
	for i := 0; i < 5; i++ {
		if g := d.Detect(0); g != e {
			t.Fatal(i, g, e)
		}
	}
}
'''
