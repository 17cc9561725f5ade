out=['''// Displayed text and what is typed.
package zzvsaref

import (
	"strings"

	midi "github.com/justyntemme/vst3go/pkg/midi"
	param "github.com/justyntemme/vst3go/pkg/framework/param"
)

// the number read back of x shown with prec decimals
func zzRnd(prec int, x float64) float64 { return x }

func zzTyped(p *param.Parameter, s string) (float64, bool) {
	v, err := p.ParseValue(s)
	return v, err == nil
}

func zzHear(s string, f func(string) (float64, error)) (float64, bool) {
	v, err := f(s)
	return v, err == nil
}
''']
def eq(name, params, ret, l, r):
    out.append(f"func Lhs_{name}({params}) {ret} {{\n{l}\n}}\nfunc Rhs_{name}({params}) {ret} {{\n{r}\n}}\n")
R="(float64, bool)"
G="\tif !(n >= 0 && n <= 1) {\n\t\treturn 0, false\n\t}\n"
def par(name, build, shown, extra=""):
    ps="n float64"+extra
    for kind,f in [("",'p.FormatValue(n)'),("space",'"  " + p.FormatValue(n) + " "')]:
        if kind=="space" and name in ("plain","steps","resonance","phase"): continue
        eq("back_"+name+("_"+kind if kind else ""), ps, R, G+f"\tp := {build}.Build()\n\treturn zzTyped(p, {f})",
       G+f"\tp := {build}.Build()\n\tx := p.Denormalize(n)\n\t{shown}")
par("gain",'param.GainParameter(1, "g")',"if x <= -80 {\n\t\treturn p.Normalize(-80), true\n\t}\n\treturn p.Normalize(zzRnd(1, x)), true")
for nm in ["Mix","Feedback","Drive","Depth"]:
    par(nm.lower(),f'param.{nm}Parameter(1, "g")',"return p.Normalize(zzRnd(0, x)), true")
par("frequency",'param.FrequencyParameter(1, "g", lo, hi, d)',"if x >= 1000 {\n\t\treturn p.Normalize(zzRnd(2, x/1000) * 1000), true\n\t}\n\treturn p.Normalize(zzRnd(1, x)), true",", lo, hi, d float64")
tm="if x >= 1000 {\n\t\treturn p.Normalize(zzRnd(2, x/1000) * 1000), true\n\t}\n\treturn p.Normalize(zzRnd(1, x)), true"
par("time",'param.TimeParameter(1, "g", lo, hi, d)',tm,", lo, hi, d float64")
par("attack",'param.AttackParameter(1, "g", hi)',tm,", hi float64")
par("release",'param.ReleaseParameter(1, "g", hi)',tm,", hi float64")
par("ratio",'param.RatioParameter(1, "g", lo, hi, d)',"if x >= 100 {\n\t\treturn p.Normalize(100), true\n\t}\n\treturn p.Normalize(zzRnd(1, x)), true",", lo, hi, d float64")
par("q",'param.QParameter(1, "g", lo, hi, d)',"return p.Normalize(zzRnd(2, x)), true",", lo, hi, d float64")
par("pan",'param.PanParameter(1, "g")',"if x == 0 {\n\t\treturn p.Normalize(0), true\n\t}\n\tif x < 0 {\n\t\treturn p.Normalize(-zzRnd(0, -x)), true\n\t}\n\treturn p.Normalize(zzRnd(0, x)), true")
par("phase",'param.PhaseParameter(1, "g")',"return p.Normalize(zzRnd(1, x)), true")
par("resonance",'param.ResonanceParameter(1, "g")',"return p.Normalize(zzRnd(3, x)), true")
par("threshold",'param.ThresholdParameter(1, "g", lo, hi, d)',"if x <= -60 {\n\t\treturn p.Normalize(-96), true\n\t}\n\treturn p.Normalize(zzRnd(1, x)), true",", lo, hi, d float64")
par("rate",'param.RateParameter(1, "g", lo, hi, d)',"if x < 1 {\n\t\treturn p.Normalize(zzRnd(3, x)), true\n\t}\n\treturn p.Normalize(zzRnd(2, x)), true",", lo, hi, d float64")
par("plain",'param.New(1, "g").Range(lo, hi)',"return p.Normalize(zzRnd(2, x)), true",", lo, hi float64")
par("steps",'param.New(1, "g").Range(lo, hi).Steps(5)',"return p.Normalize(zzRnd(0, x)), true",", lo, hi float64")
par("toggle",'param.New(1, "g").Toggle().Formatter(param.OnOffFormatter, param.OnOffParser)',"if x > 0.5 {\n\t\treturn 1, true\n\t}\n\treturn 0, true")
# bare pairs
def pair(name, fmt, parse, shown, sp=True):
    for kind,f in [("",f'param.{fmt}(x)'),("space",f'" " + param.{fmt}(x) + "  "')]:
        if kind and not sp: continue
        eq("pair_"+name+("_"+kind if kind else ""),"x float64",R,f"\treturn zzHear({f}, param.{parse})","\t"+shown)
pair("frequency","FrequencyFormatter","FrequencyParser","if x >= 1000 {\n\t\treturn zzRnd(2, x/1000) * 1000, true\n\t}\n\treturn zzRnd(1, x), true")
pair("decibel","DecibelFormatter","DecibelParser","if x <= -60 {\n\t\treturn -96, true\n\t}\n\treturn zzRnd(1, x), true")
pair("percent","PercentFormatter","PercentParser","return zzRnd(0, x), true")
pair("time","TimeFormatter","TimeParser","if x < 1 {\n\t\treturn zzRnd(2, x*1000) / 1000, true\n\t}\n\tif x < 1000 {\n\t\treturn zzRnd(1, x), true\n\t}\n\treturn zzRnd(2, x/1000) * 1000, true")
pair("ratio","RatioFormatter","RatioParser","return zzRnd(1, x), true")
pair("pan","PanFormatter","PanParser","if x > -0.01 && x < 0.01 {\n\t\treturn 0, true\n\t}\n\tif x < 0 {\n\t\treturn -zzRnd(0, -x*100) / 100, true\n\t}\n\treturn zzRnd(0, x*100) / 100, true")
pair("onoff","OnOffFormatter","OnOffParser","if x > 0.5 {\n\t\treturn 1, true\n\t}\n\treturn 0, true")
# names
def count(name, n, get, ok):
    eq("names_"+name,"","int",f"\tbad := 0\n\tfor i := 0; i < {n}; i++ {{\n\t\tv, ok := {get}\n\t\tif !ok || v != {ok} {{\n\t\t\tbad++\n\t\t}}\n\t}}\n\treturn bad","\treturn 0")
count("filter",8,"zzHear(param.FilterTypeFormatter(float64(i)), param.FilterTypeParser)","float64(i)")
count("filter_case",8,'zzHear(" "+strings.ToUpper(param.FilterTypeFormatter(float64(i)))+" ", param.FilterTypeParser)',"float64(i)")
count("gate",4,"zzHear(param.GateTypeFormatter(float64(i)), param.GateTypeParser)","float64(i)")
count("gate_case",4,'zzHear(" "+strings.ToUpper(param.GateTypeFormatter(float64(i)))+" ", param.GateTypeParser)',"float64(i)")
count("note",128,"zzHear(param.NoteFormatter(float64(i)), param.NoteParser)","float64(i)")
count("note_low",24,"zzHear(param.NoteFormatter(float64(-i)), param.NoteParser)","float64(-i)")
count("note_case",128,'zzHear(" "+strings.ToLower(param.NoteFormatter(float64(i)))+" ", param.NoteParser)',"float64(i)")
count("note_midi",128,"zzHear(midi.NoteNumberToName(uint8(i)), param.NoteParser)","float64(i)")
out.append('''
func Lhs_names_note_flat() (float64, float64, float64, float64, float64, float64, float64, float64) {
	f := func(s string) float64 {
		v, _ := param.NoteParser(s)
		return v
	}
	return f("Db4"), f("Eb4"), f("Gb4"), f("Ab4"), f("Bb4"), f("Cb4"), f("B#3"), f("E#4")
}
func Rhs_names_note_flat() (float64, float64, float64, float64, float64, float64, float64, float64) {
	return 61, 63, 66, 68, 70, 59, 60, 65
}

func Lhs_names_note_known() (string, string, string, string) {
	return param.NoteFormatter(60), param.NoteFormatter(69), param.NoteFormatter(0), midi.NoteNumberToName(127)
}
func Rhs_names_note_known() (string, string, string, string) { return "C4", "A4", "C-1", "G9" }

func zzOptions(n int) []param.ChoiceOption {
	all := []param.ChoiceOption{{Name: "Off"}, {Name: "Low", Aliases: []string{"lo", "Small"}}, {Name: "Wide Open"}, {Name: "MAX"}, {Name: "5"}}
	all = all[:n]
	for i := range all {
		all[i].Value = float64(i)
	}
	return all
}

func zzMany(n int) []param.ChoiceOption {
	names := "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
	all := make([]param.ChoiceOption, n)
	for i := range all {
		all[i].Value, all[i].Name = float64(i), names[i:i+1]
	}
	return all
}

func Lhs_choice_many_2() int {
	const n = 2
	bad := 0
	p := param.Choice(1, "g", zzMany(n)).Build()
	if p.StepCount != n-1 {
		bad += 1000
	}
	for i := 0; i < n; i++ {
		at := float64(i) / float64(n-1)
		v, err := p.ParseValue(p.FormatValue(at))
		if err != nil || v != at {
			bad++
		}
	}
	return bad
}
func Rhs_choice_many_2() int { return 0 }

func Lhs_choice_many_3() int {
	const n = 3
	bad := 0
	p := param.Choice(1, "g", zzMany(n)).Build()
	if p.StepCount != n-1 {
		bad += 1000
	}
	for i := 0; i < n; i++ {
		at := float64(i) / float64(n-1)
		v, err := p.ParseValue(p.FormatValue(at))
		if err != nil || v != at {
			bad++
		}
	}
	return bad
}
func Rhs_choice_many_3() int { return 0 }

func Lhs_choice_many_4() int {
	const n = 4
	bad := 0
	p := param.Choice(1, "g", zzMany(n)).Build()
	if p.StepCount != n-1 {
		bad += 1000
	}
	for i := 0; i < n; i++ {
		at := float64(i) / float64(n-1)
		v, err := p.ParseValue(p.FormatValue(at))
		if err != nil || v != at {
			bad++
		}
	}
	return bad
}
func Rhs_choice_many_4() int { return 0 }

func Lhs_choice_many_8() int {
	const n = 8
	bad := 0
	p := param.Choice(1, "g", zzMany(n)).Build()
	if p.StepCount != n-1 {
		bad += 1000
	}
	for i := 0; i < n; i++ {
		at := float64(i) / float64(n-1)
		v, err := p.ParseValue(p.FormatValue(at))
		if err != nil || v != at {
			bad++
		}
	}
	return bad
}
func Rhs_choice_many_8() int { return 0 }

// a value that is not met exactly on the way back: 15/22*22 < 15
func Lhs_choice_many_23() string {
	p := param.Choice(1, "g", zzMany(23)).Build()
	x := 15.0
	return p.FormatValue(x / 22)
}
func Rhs_choice_many_23() string { return "F" }

func Lhs_choice_words() (string, string, string, float64, float64, float64, bool) {
	p := param.Choice(1, "g", zzOptions(5)).Build()
	a, _ := p.ParseValue(" small ")
	b, _ := p.ParseValue("wide open")
	c, _ := p.ParseValue("max")
	_, err := p.ParseValue("other")
	return p.FormatValue(0), p.FormatValue(0.5), p.FormatValue(1), a, b, c, err != nil
}
func Rhs_choice_words() (string, string, string, float64, float64, float64, bool) {
	return "Off", "Wide Open", "5", 0.25, 0.5, 0.75, true
}

// names that begin, end or lie in one another
func Lhs_choice_alike() (float64, float64, float64, float64, float64, float64) {
	p := param.Choice(1, "g", []param.ChoiceOption{{Value: 0, Name: "Low Shelf", Aliases: []string{"shelf lo"}}, {Value: 1, Name: "Low", Aliases: []string{"l"}},
		{Value: 2, Name: "Shelf"}, {Value: 3, Name: "Very Low Shelf", Aliases: []string{"Low Sh"}}, {Value: 4, Name: "L O"}}).Build()
	f := func(s string) float64 {
		v, err := p.ParseValue(s)
		if err != nil {
			return -1
		}
		return v * 4
	}
	return f("LOW SHELF"), f("low"), f("shelf"), f("low sh"), f("l o"), f("lo")
}
func Rhs_choice_alike() (float64, float64, float64, float64, float64, float64) {
	return 0, 1, 2, 3, 4, -1
}

func Lhs_choice_uneven() (string, string, string, string, float64) {
	o := zzOptions(3)
	o[0].Value, o[1].Value, o[2].Value = 10, 20, 50
	p := param.Choice(1, "g", o).Build()
	v, _ := p.ParseValue("low")
	return p.FormatValue(0), p.FormatValue(0.25), p.FormatValue(1), p.FormatValue(p.GetValue()), v
}
func Rhs_choice_uneven() (string, string, string, string, float64) {
	return "Off", "Low", "Wide Open", "Off", 0.25
}

func Lhs_choice_none() (float64, int32, bool) {
	p := param.Choice(1, "g", nil).Build()
	_, err := p.ParseValue("x")
	return p.GetValue(), p.StepCount, err != nil
}
func Rhs_choice_none() (float64, int32, bool) { return 0, 0, true }

func Lhs_choice_bypass() (string, string, float64, float64, int32) {
	p := param.BypassParameter(1, "g").Build()
	a, _ := p.ParseValue("active")
	b, _ := p.ParseValue("bypassed")
	return p.FormatValue(0), p.FormatValue(1), a, b, p.StepCount
}
func Rhs_choice_bypass() (string, string, float64, float64, int32) {
	return "Active", "Bypassed", 0, 1, 1
}

// what is not a number or a name is refused, and changes nothing
''')
for nm,b in [("gain",'GainParameter(1, "g")'),("mix",'MixParameter(1, "g")'),("frequency",'FrequencyParameter(1, "g", 20, 20000, 440)'),("time",'TimeParameter(1, "g", 0, 5000, 10)'),("ratio",'RatioParameter(1, "g", 1, 20, 4)'),("q",'QParameter(1, "g", 0.1, 20, 1)'),("pan",'PanParameter(1, "g")'),("phase",'PhaseParameter(1, "g")'),("threshold",'ThresholdParameter(1, "g", -60, 0, -20)'),("rate",'RateParameter(1, "g", 0.01, 20, 1)'),("resonance",'ResonanceParameter(1, "g")')]:
    eq("refuse_"+nm,"","(bool, bool)",f'\tp := param.{b}.Build()\n\t_, a := zzTyped(p, "loud")\n\t_, b := zzTyped(p, "")\n\treturn a, b',"\treturn false, false")
for nm,f in [("note","NoteParser"),("onoff","OnOffParser"),("filter","FilterTypeParser"),("gate","GateTypeParser")]:
    eq("refuse_"+nm,"","(bool, bool)",f'\t_, a := zzHear("loud", param.{f})\n\t_, b := zzHear("", param.{f})\n\treturn a, b',"\treturn false, false")
p='/verif/sa/refs/c10_text.go.txt'
open(p,'w').write("\n".join(out))

import subprocess
t=subprocess.run(['gofmt'],input=open(p).read(),capture_output=True,text=True).stdout
open(p,'w').write(t)
