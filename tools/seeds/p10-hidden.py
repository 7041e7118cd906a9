PROP="P10"; PKG="internal/runbook/sh"
EDITS=[("internal/runbook/sh/exec.go","""	case strings.HasPrefix(arg0, "../"):
""","""	case strings.HasPrefix(arg0, ".."):
""")]
NEEDS="a command given as a relative path whose first element starts with two dots but is not the parent directory"
BREAKS="a command like ..data/run is accepted although it is neither a bare name nor an explicit path"
DEMO='''package sh_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/sh"
)

func TestDemo(t *testing.T) {
	for cmd, ok := range map[string]bool{"..data/run": false, "../run": true, "..run": true, "./run": true, "data/run": false} {
		if err := (&sh.Exec{Args: []string{cmd}}).Check(); (err == nil) != ok {
			t.Fatal(cmd, err)
		}
	}
}
'''
