prop="C33"
needs='a host that reports its loop while looping is switched off'
breaks='the loop points of the host reach the plugin only while the loop is active, although they are reported as valid'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/component.go', '\t\tif transport.HasCycle {', '\t\tif transport.HasCycle && transport.IsCycling {')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\tp := newSeedProc()\n\tvar has bool\n\tvar end float64\n\tp.process = func(ctx *process.Context) { has, end = ctx.Transport.HasCycle, ctx.Transport.CycleEndMusic }\n\tc := newComponent(p)\n\tc.SetProcessing(true)\n\th := newDemoHost(8, 2)\n\th.transport(1<<12, 120) // kCycleValid\n\th.context().cycleStartMusic, h.context().cycleEndMusic = 4, 12\n\th.run(c)\n\tif !has || end != 12 {\n\t\tt.Fatalf("loop valid %v, end %v", has, end)\n\t}\n}\n'
