prop="C31"
needs='a processor with both a reset and an activation callback, deactivated'
breaks='the reset callback is only a fallback: with an activation callback set, deactivation resets nothing'
edits=[("pkg/framework/plugin/processor.go",'''	if !active && b.onReset != nil {
		b.onReset()
	}
	
	if b.onSetActive != nil {
		return b.onSetActive(active)
	}
	
	return nil
''','''	if b.onSetActive != nil {
		return b.onSetActive(active)
	}

	if !active && b.onReset != nil {
		b.onReset()
	}

	return nil
''')]
pkg="pkg/framework/plugin"
test='''
package plugin

import "testing"

func TestSeedDemo(t *testing.T) {
	b := NewBaseProcessor(nil)
	n := 0
	b.OnReset(func() { n++ })
	b.OnSetActive(func(active bool) error { return nil })
	b.SetActive(true)
	b.SetActive(false)
	if n != 1 {
		t.Fatal(n)
	}
}
'''
