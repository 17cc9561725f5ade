import subprocess
out=['''// What a plugin is built on.
package zzvsaref

import (
	"crypto/md5"
	"errors"

	bus "github.com/justyntemme/vst3go/pkg/framework/bus"
	param "github.com/justyntemme/vst3go/pkg/framework/param"
	plugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	process "github.com/justyntemme/vst3go/pkg/framework/process"
)

''']
def eq(n,p,r,l,rr): out.append(f"func Lhs_{n}({p}) {r} {{\n{l}}}\nfunc Rhs_{n}({p}) {r} {{\n{rr}}}\n")
eq('identity_any','id, name, version, vendor, category string','[16]byte',
'''	i := plugin.Info{ID: id, Name: name, Version: version, Vendor: vendor, Category: category}
	return i.UID()
''','''	switch id {
	case "com.vst3go.examples.gain":
		return [16]byte{0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88}
	case "com.vst3go.examples.filter":
		return [16]byte{0x87, 0x65, 0x43, 0x21, 0xFE, 0xDC, 0xBA, 0x98, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22, 0x11}
	case "com.vst3go.examples.delay":
		return [16]byte{0xAA, 0xBB, 0xCC, 0xDD, 0xEE, 0xFF, 0x00, 0x11, 0x99, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22}
	}
	h := md5.Sum([]byte(id))
	h[6] = h[6]&0x0f | 0x40
	h[8] = h[8]&0x3f | 0x80
	return h
''')
eq('identity_twice','id string','[16]byte',
'''	i := plugin.Info{ID: id}
	i.UID()
	i.ValidateUID()
	return i.UID()
''','''	i := plugin.Info{ID: id}
	return i.UID()
''')
for k in ('gain','filter','delay'):
    eq(f'identity_valid_{k}','name string','bool',
f'''	i := plugin.Info{{ID: "com.vst3go.examples.{k}", Name: name}}
	return i.ValidateUID() == nil
''','''	return true
''')
eq('base_info','id, name, version, vendor, category, other string','(string, string, string, string, string)',
'''	i := plugin.Info{ID: id, Name: name, Version: version, Vendor: vendor, Category: category}
	b := plugin.NewBase(&i)
	i.ID, i.Name, i.Version, i.Vendor, i.Category = other, other, other, other, other
	return b.Info.ID, b.Info.Name, b.Info.Version, b.Info.Vendor, b.Info.Category
''','''	return id, name, version, vendor, category
''')
eq('base_registry','id string','(int32, int32, string, bool)',
'''	i := plugin.Info{ID: id}
	b, c := plugin.NewBase(&i), plugin.NewBase(&i)
	b.Parameters().Add(&param.Parameter{ID: 7, Name: "a"})
	return b.Parameters().Count(), c.Parameters().Count(), b.Parameters().Get(7).Name, c.Parameters().Get(7) == nil
''','''	return 1, 0, "a", true
''')
eq('base_buses','','(bool, bool)',
'''	c := bus.NewMonoConfiguration()
	b := plugin.NewBaseProcessor(c)
	s := plugin.NewSimpleProcessor(c, nil)
	return b.GetBuses() == c, s.GetBuses() == c
''','''	return true, true
''')
C='''	n, o := c.GetBusCount(bus.MediaTypeAudio, bus.DirectionInput), c.GetBusCount(bus.MediaTypeAudio, bus.DirectionOutput)
	return n, o, c.GetBusInfo(bus.MediaTypeAudio, bus.DirectionInput, 0).ChannelCount, c.GetBusInfo(bus.MediaTypeAudio, bus.DirectionOutput, 0).ChannelCount
'''
for n,e in (('base','plugin.NewBaseProcessor(nil)'),('simple','plugin.NewSimpleProcessor(nil, nil)')):
    eq(f'base_stereo_{n}','','(int32, int32, int32, int32)',f"	c := {e}.GetBuses()\n"+C,"	return 1, 1, 2, 2\n")
eq('base_params','','(int32, int32, string, bool)',
'''	b, c := plugin.NewBaseProcessor(nil), plugin.NewBaseProcessor(nil)
	b.Parameters().Add(&param.Parameter{ID: 7, Name: "a"})
	return b.Parameters().Count(), c.Parameters().Count(), b.GetParameters().Get(7).Name, c.Parameters().Get(7) == nil
''','''	return 1, 0, "a", true
''')
eq('base_still','rate float64, block int32','(int32, int32, int32, int32)',
'''	b := plugin.NewBaseProcessor(nil)
	l, t := b.GetLatencySamples(), b.GetTailSamples()
	b.Initialize(rate, block)
	b.SetActive(true)
	return l, t, b.GetLatencySamples(), b.GetTailSamples()
''','''	return 0, 0, 0, 0
''')
eq('hooks_none','rate float64, block int32, active bool','(bool, bool, float64)',
'''	b := plugin.NewBaseProcessor(nil)
	e, f := b.Initialize(rate, block), b.SetActive(active)
	return e == nil, f == nil, b.SampleRate()
''','''	return true, true, rate
''')
eq('hooks_initialize','rate, rate2 float64, block, block2 int32, fails bool','(int, float64, int32, float64, bool, float64)',
'''	b := plugin.NewBaseProcessor(nil)
	err := errors.New("zz")
	n, r, k, in := 0, 0.0, int32(0), 0.0
	b.OnInitialize(func(sampleRate float64, maxBlockSize int32) error {
		n++
		r, k, in = sampleRate, maxBlockSize, b.SampleRate()
		if fails {
			return err
		}
		return nil
	})
	b.Initialize(rate2, block2)
	e := b.Initialize(rate, block)
	return n, r, k, in, e == err, b.SampleRate()
''','''	return 2, rate, block, rate, fails, rate
''')
eq('hooks_active','active, fails bool','(int, int, bool, bool)',
'''	b := plugin.NewBaseProcessor(nil)
	err := errors.New("zz")
	resets, order, got := 0, 0, !active
	b.OnReset(func() { resets++; order = order*10 + 1 })
	b.OnSetActive(func(a bool) error {
		order = order*10 + 2
		got = a
		if fails {
			return err
		}
		return nil
	})
	e := b.SetActive(active)
	return resets, order, got, e == err
''','''	if active {
		return 0, 2, true, fails
	}
	return 1, 12, false, fails
''')
eq('hooks_reset_only','active bool','(int, bool)',
'''	b := plugin.NewBaseProcessor(nil)
	resets := 0
	b.OnReset(func() { resets++ })
	e := b.SetActive(active)
	return resets, e == nil
''','''	if active {
		return 0, true
	}
	return 1, true
''')
eq('hooks_active_only','active bool','(int, bool)',
'''	b := plugin.NewBaseProcessor(nil)
	n := 0
	got := !active
	b.OnSetActive(func(a bool) error { n++; got = a; return nil })
	e := b.SetActive(active)
	return n, got == active && e == nil
''','''	return 1, true
''')
eq('hooks_cycle','','(int, int)',
'''	b := plugin.NewBaseProcessor(nil)
	resets, n := 0, 0
	b.OnReset(func() { resets++ })
	b.OnSetActive(func(a bool) error { n++; return nil })
	b.SetActive(true)
	b.SetActive(false)
	b.SetActive(true)
	b.SetActive(false)
	b.SetActive(false)
	return resets, n
''','''	return 3, 5
''')
eq('hooks_process','n int','(int, bool)',
'''	c := process.NewContext(n, nil)
	calls := 0
	var got *process.Context
	s := plugin.NewSimpleProcessor(nil, func(ctx *process.Context) { calls++; got = ctx })
	s.ProcessAudio(c)
	s.ProcessAudio(c)
	return calls, got == c
''','''	process.NewContext(n, nil)
	return 2, true
''')
eq('hooks_process_none','x float32','(float32, float32)',
'''	c := process.NewContext(4, nil)
	c.Input, c.Output = [][]float32{{x}}, [][]float32{{2}}
	s := plugin.NewSimpleProcessor(nil, nil)
	s.ProcessAudio(c)
	return c.Input[0][0], c.Output[0][0]
''','''	return x, 2
''')
src='\n'.join(out)
open('/tmp/c31.go','w').write(src)
p='/verif/sa/refs/c31_plugin.go.txt'
open(p,'w').write(subprocess.run(['gofmt'],input=src,text=True,capture_output=True,check=True).stdout)
