prop="C10"
needs="a choice with an option whose name begins with the name of a later option"
breaks="abbreviations are accepted, and an option's full name selects an earlier one that begins with it"
edits=[("pkg/framework/param/builders.go","""			if strings.EqualFold(str, opt.Name) {
""","""			if normalizedStr != "" && strings.HasPrefix(strings.ToLower(opt.Name), normalizedStr) {
""")]
pkg="pkg/framework/param"
test='''
package param

import "testing"

func TestSeedDemo(t *testing.T) {
	p := Choice(1, "Filter", []ChoiceOption{{Value: 0, Name: "Low Shelf"}, {Value: 1, Name: "Low"}}).Build()
	v, err := p.ParseValue(p.FormatValue(1))
	if err != nil || v != 1 {
		t.Fatal(p.FormatValue(1), v, err)
	}
}
'''
