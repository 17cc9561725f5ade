prop="C32"
needs='the file and line flags, and an error'
breaks='errors are logged through one more function, so their line is always one of the logger itself'
edits=[("pkg/framework/debug/logger.go",'''// Error logs an error message.
func (l *Logger) Error(format string, args ...interface{}) {
	l.log(LogLevelError, format, args...)
}
''','''// Error logs an error message.
func (l *Logger) Error(format string, args ...interface{}) {
	l.failure(LogLevelError, format, args...)
}

// failure logs an error or worse.
func (l *Logger) failure(level LogLevel, format string, args ...interface{}) {
	if level > LogLevelFatal {
		level = LogLevelFatal
	}
	l.log(level, format, args...)
}
''')]
pkg="pkg/framework/debug"
test='''
package debug

import (
	"bytes"
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	var b bytes.Buffer
	New(&b, "", FlagShortFile).Error("x")
	if strings.HasPrefix(b.String(), "logger.go") {
		t.Fatal(b.String())
	}
}
'''
