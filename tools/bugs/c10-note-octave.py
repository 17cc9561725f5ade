prop="C10"
needs="a note below C0 (number 0 to 11)"
breaks="notes of the octave -1 are read an octave or two up"
edits=[("pkg/framework/param/formatters.go","""		if ch >= '0' && ch <= '9' || ch == '-' {
""","""		if ch >= '0' && ch <= '9' {
"""),("pkg/framework/param/formatters.go","""	noteName := str[:octaveStart]
""","""	noteName := strings.TrimSuffix(str[:octaveStart], "-")
""")]
pkg="pkg/framework/param"
test='''
package param

import "testing"

func TestSeedDemo(t *testing.T) {
	for i := 0; i < 128; i++ {
		v, err := NoteParser(NoteFormatter(float64(i)))
		if err != nil || v != float64(i) {
			t.Fatal(i, NoteFormatter(float64(i)), v, err)
		}
	}
}
'''
