prop="C33"
needs='a note-off event with a release velocity'
breaks='note-off events are read with the layout of note-on events, so that their velocity is another field of the event'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/component.go', '\t\tnoteOff := C.getNoteOffEvent(event)', '\t\tnoteOff := C.getNoteOnEvent(event)')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\tp := newSeedProc()\n\tvar got []midi.Event\n\tp.process = func(ctx *process.Context) { got = append(got, ctx.GetAllInputEvents()...) }\n\tc := newComponent(p)\n\tc.SetProcessing(true)\n\th := newDemoHost(8, 2)\n\th.note(1, 3, 2, 60, 1)\n\th.run(c)\n\tif len(got) != 1 {\n\t\tt.Fatalf("%d events", len(got))\n\t}\n\toff, ok := got[0].(midi.NoteOffEvent)\n\tif !ok || off.EventChannel != 2 || off.NoteNumber != 60 || off.Velocity != 127 {\n\t\tt.Fatalf("event %+v", got[0])\n\t}\n}\n'
