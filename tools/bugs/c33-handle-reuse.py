prop="C33"
needs='an instance that is released, another one created, and a late call for the first'
breaks='the handle of a released instance is given to the next one, which then receives the calls meant for the first'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/wrapper.go', '\tdelete(components, id)\n', '\tdelete(components, id)\n\tif id == nextID-1 {\n\t\tnextID = id\n\t}\n')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\told := globalPlugin\n\tdefer Register(old)\n\tfirst, second := newSeedProc(), newSeedProc()\n\tRegister(seedPlugin{first})\n\tinfo := seedPlugin{}.GetInfo()\n\th1 := demoCreate(info.UID())\n\tif h1 == nil {\n\t\tt.Fatal("no first instance")\n\t}\n\tGoReleaseComponent(h1)\n\tRegister(seedPlugin{second})\n\th2 := demoCreate(info.UID())\n\tif h2 == nil {\n\t\tt.Fatal("no second instance")\n\t}\n\tdemoSetValue(h1, 7, 0.5)\n\tif v := second.r.Get(7).GetValue(); v != 0 {\n\t\tt.Fatalf("a call for the released instance set the other one\'s gain to %v", v)\n\t}\n}\n'
