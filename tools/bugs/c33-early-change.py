prop="C33"
needs='a parameter change at an offset behind the start of the block'
breaks='the samples before an automation point are already processed with its value'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/component.go', '\tfor _, change := range changes {\n\t\tif change.SampleOffset', '\tfor _, change := range changes {\n\t\t// Apply the parameter change\n\t\tc.processCtx.ApplyParameterChange(change)\n\n\t\tif change.SampleOffset'), ('pkg/plugin/component.go', '\t\t\tlastOffset = change.SampleOffset\n\t\t}\n\n\t\t// Apply the parameter change\n\t\tc.processCtx.ApplyParameterChange(change)\n\t}\n', '\t\t\tlastOffset = change.SampleOffset\n\t\t}\n\t}\n')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\tp := newSeedProc()\n\tvar seen []float64\n\tp.process = func(ctx *process.Context) {\n\t\tfor range ctx.Output[0] {\n\t\t\tseen = append(seen, p.r.Get(7).GetValue())\n\t\t}\n\t}\n\tc := newComponent(p)\n\tc.SetProcessing(true)\n\th := newDemoHost(8, 2)\n\th.queue(7)\n\th.point(0, 0.25)\n\th.point(5, 0.75)\n\th.run(c)\n\tif len(seen) != 8 || seen[0] != 0.25 || seen[4] != 0.25 || seen[5] != 0.75 || seen[7] != 0.75 {\n\t\tt.Fatalf("gain while processing: %v", seen)\n\t}\n}\n'
