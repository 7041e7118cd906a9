PROP="P22"; PKG="internal/logger"
EDITS=[("internal/logger/logger.go","""	case verbosity >= 3:
""","""	case verbosity == 3:
""")]
NEEDS="a verbosity above 3"
BREAKS="a logger of verbosity 4 or more shows only errors"
DEMO='''package logger_test

import (
	"bytes"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
)

func TestDemo(t *testing.T) {
	var a bytes.Buffer
	logger.New(4, &a, nil).Debug("xyzzy")
	if !strings.Contains(a.String(), "xyzzy") {
		t.Fatal(a.String())
	}
}
'''
