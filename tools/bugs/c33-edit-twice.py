prop="C33"
needs='a parameter changed by the plugin while the host has installed a handler'
breaks='the end of an edit is told to the host before its value'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/component.go', '\t\t\tc.wrapper.notifyParamBeginEdit(id)\n\t\t\tp.SetValue(value)\n\t\t\tc.wrapper.notifyParamPerformEdit(id, value)\n\t\t\tc.wrapper.notifyParamEndEdit(id)\n', '\t\t\tc.wrapper.notifyParamBeginEdit(id)\n\t\t\tdefer c.wrapper.notifyParamPerformEdit(id, value)\n\t\t\tp.SetValue(value)\n\t\t\tc.wrapper.notifyParamEndEdit(id)\n')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n\t"github.com/justyntemme/vst3go/pkg/vst3"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ vst3.ProcessSetup\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\tc := newComponent(newSeedProc())\n\tw := &componentWrapper{component: c}\n\tc.wrapper = w\n\tw.componentHandler = newDemoHandler()\n\tif err := c.SetParamNormalizedWithNotification(7, 0.5); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif told := demoTold(); told != "bpe" {\n\t\tt.Fatalf("the host was told %q", told)\n\t}\n}\n'
