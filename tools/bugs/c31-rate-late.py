prop="C31"
needs='an initialize callback that reads the sample rate from the base, called for a second time with another rate'
breaks='the sample rate is taken over only after the initialize callback has run'
edits=[("pkg/framework/plugin/processor.go",'''	b.sampleRate = sampleRate
	
	if b.onInitialize != nil {
		return b.onInitialize(sampleRate, maxBlockSize)
	}
	
	return nil
''','''	defer func() { b.sampleRate = sampleRate }()

	if b.onInitialize != nil {
		return b.onInitialize(sampleRate, maxBlockSize)
	}

	return nil
''')]
pkg="pkg/framework/plugin"
test='''
package plugin

import "testing"

func TestSeedDemo(t *testing.T) {
	b := NewBaseProcessor(nil)
	seen := 0.0
	b.OnInitialize(func(rate float64, block int32) error {
		seen = b.SampleRate()
		return nil
	})
	b.Initialize(44100, 512)
	b.Initialize(48000, 512)
	if seen != 48000 {
		t.Fatal(seen)
	}
}
'''
