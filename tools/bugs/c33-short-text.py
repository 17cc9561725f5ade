prop="C33"
needs='a stream that ends within a text'
breaks='a text whose end is missing in the stream is read as one with zero bytes at its end'
host=True
pkg="pkg/plugin"
edits=[('pkg/vst3/stream.go', '\tif n != length {\n\t\treturn "", ErrNotImplemented\n\t}\n', '\tif n == 0 {\n\t\treturn "", ErrNotImplemented\n\t}\n')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n\t"github.com/justyntemme/vst3go/pkg/vst3"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ vst3.ProcessSetup\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\ts, err := vst3.NewStreamWrapper(newDemoStream(100, 0, "\\x04\\x00\\x00\\x00abcd")).ReadString()\n\tif s != "abcd" || err != nil {\n\t\tt.Fatal(s, err)\n\t}\n\tif s, err := vst3.NewStreamWrapper(newDemoStream(100, 0, "\\x04\\x00\\x00\\x00ab")).ReadString(); err == nil {\n\t\tt.Fatalf("read %q", s)\n\t}\n}\n'
