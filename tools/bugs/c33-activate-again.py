prop="C33"
needs='an activation that fails and is tried again by the host'
breaks='a second activation after a failed one is reported as a success without telling the processor'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/component.go', '\tc.active = active\n\treturn c.processor.SetActive(active)', '\tif c.active == active {\n\t\treturn nil\n\t}\n\tc.active = active\n\treturn c.processor.SetActive(active)')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\tp := newSeedProc()\n\tcalls := 0\n\tp.active = func(on bool) error {\n\t\tcalls++\n\t\treturn errors.New("no memory for the delay line")\n\t}\n\tc := newComponent(p)\n\tif c.SetActive(true) == nil || c.SetActive(true) == nil || calls != 2 {\n\t\tt.Fatalf("%d calls; activation of a processor that refuses reported as done", calls)\n\t}\n}\n'
