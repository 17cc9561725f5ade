prop="C33"
needs='a bus one of whose middle channels the host left out (nil)'
breaks='the channels behind one the host left out never reach the processor'
host=True
pkg="pkg/plugin"
edits=[('pkg/plugin/component.go', '\t\t\t\tfor _, channel := range channels {\n\t\t\t\t\tif channel != nil {\n\t\t\t\t\t\t// Create slice from pointer without allocation\n\t\t\t\t\t\tsamples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]\n\t\t\t\t\t\tc.processCtx.Output = append(c.processCtx.Output, samples)\n\t\t\t\t\t}\n\t\t\t\t}', '\t\t\t\tfor _, channel := range channels {\n\t\t\t\t\tif channel == nil {\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t\t// Create slice from pointer without allocation\n\t\t\t\t\tsamples := (*[vst3.MaxArraySize]float32)(unsafe.Pointer(channel))[:numSamples:numSamples]\n\t\t\t\t\tc.processCtx.Output = append(c.processCtx.Output, samples)\n\t\t\t\t}')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\tp := newSeedProc()\n\tp.process = func(ctx *process.Context) {\n\t\tfor _, ch := range ctx.Output {\n\t\t\tfor i := range ch {\n\t\t\t\tch[i] = 1\n\t\t\t}\n\t\t}\n\t}\n\tc := newComponent(p)\n\tc.SetProcessing(true)\n\th := newDemoHost(8, 3)\n\th.drop(0, 1)\n\th.run(c)\n\tif h.out[0][0] != 1 || h.out[1][0] != 0 || h.out[2][0] != 1 {\n\t\tt.Fatalf("outputs %v %v %v", h.out[0][0], h.out[1][0], h.out[2][0])\n\t}\n}\n'
