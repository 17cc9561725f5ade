prop="C06"
needs="text of a number outside the parameter's range, on a parameter without its own parser"
breaks="ParseValue returns a normalized value outside 0..1 for text outside the range"
edits=[("pkg/framework/param/parameter.go","""	// Default parsing
	plain, err := strconv.ParseFloat(str, 64)
	if err != nil {
		return 0, err
	}
	return p.Normalize(plain), nil""","""	// Default parsing
	plain, err := strconv.ParseFloat(str, 64)
	if err != nil {
		return 0, err
	}
	if span := p.Max - p.Min; span > 0 {
		return (plain - p.Min) / span, nil
	}
	return 0, nil""")]
pkg="pkg/framework/param"
test='''
package param

import "testing"

func TestSeedDemo(t *testing.T) {
	p := New(1, "Level").Range(-60, 6).Build()
	for _, s := range []string{"-60", "0", "6", "12", "-100", "NaN", "+Inf"} {
		n, err := p.ParseValue(s)
		if err != nil {
			t.Fatal(err)
		}
		if !(n >= 0 && n <= 1) {
			t.Errorf("%s: %v", s, n)
		}
	}
}
'''
