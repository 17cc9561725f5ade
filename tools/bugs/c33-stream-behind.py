prop="C33"
needs="a state that does not begin at the start of the host's stream"
breaks='the size of what remains is counted from the start of the stream, so that a state further in cannot be loaded'
host=True
pkg="pkg/plugin"
edits=[('pkg/vst3/stream.go', '\tremaining := int32(endPos - currentPos)', '\tremaining := int32(endPos - newPos)'), ('pkg/vst3/stream.go', '\t// Calculate remaining size\n', '\t// Calculate remaining size\n\tvar newPos C.int64_t\n'), ('pkg/vst3/stream.go', '\t// Seek back to current position\n\tvar newPos C.int64_t\n', '\t// Seek back to current position\n')]
test='\npackage plugin\n\nimport (\n\t"errors"\n\t"testing"\n\n\t"github.com/justyntemme/vst3go/pkg/framework/bus"\n\t"github.com/justyntemme/vst3go/pkg/framework/param"\n\tfplug "github.com/justyntemme/vst3go/pkg/framework/plugin"\n\t"github.com/justyntemme/vst3go/pkg/framework/process"\n\t"github.com/justyntemme/vst3go/pkg/midi"\n\t"github.com/justyntemme/vst3go/pkg/vst3"\n)\n\nvar _ = errors.New\nvar _ midi.Event\nvar _ vst3.ProcessSetup\nvar _ fplug.Info\n\ntype seedProc struct {\n\tr       *param.Registry\n\tprocess func(ctx *process.Context)\n\tactive  func(bool) error\n}\n\nfunc newSeedProc() *seedProc {\n\tp := &seedProc{r: param.NewRegistry()}\n\tp.r.Add(&param.Parameter{ID: 7, Name: "Gain", Min: 0, Max: 1})\n\treturn p\n}\nfunc (p *seedProc) Initialize(float64, int32) error { return nil }\nfunc (p *seedProc) ProcessAudio(ctx *process.Context) {\n\tif p.process != nil {\n\t\tp.process(ctx)\n\t}\n}\nfunc (p *seedProc) GetParameters() *param.Registry { return p.r }\nfunc (p *seedProc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }\nfunc (p *seedProc) SetActive(on bool) error {\n\tif p.active != nil {\n\t\treturn p.active(on)\n\t}\n\treturn nil\n}\nfunc (p *seedProc) GetLatencySamples() int32 { return 0 }\nfunc (p *seedProc) GetTailSamples() int32    { return 0 }\n\ntype seedPlugin struct{ p *seedProc }\n\nfunc (s seedPlugin) GetInfo() fplug.Info        { return fplug.Info{ID: "com.seed.demo", Name: "Seed"} }\nfunc (s seedPlugin) CreateProcessor() Processor { return s.p }\n\n\nfunc TestSeedDemo(t *testing.T) {\n\ts := newDemoStream(100, 0, "headSTATE")\n\thead := make([]byte, 4)\n\tw := vst3.NewStreamWrapper(s)\n\tif n, err := w.Read(head); n != 4 || err != nil {\n\t\tt.Fatal(n, err)\n\t}\n\tif b, err := w.ReadAll(); err != nil || string(b) != "STATE" {\n\t\tt.Fatalf("%q %v", b, err)\n\t}\n}\n'
