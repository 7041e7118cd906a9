PROP="P27"; PKG="internal/taskset/parser"
EDITS=[("internal/taskset/parser/parser.go",'''		if x := strings.SplitN(t.Type, "/", 2); len(x) > 1 {
			targetType = x[0]
			taskType = x[1]
		}''','''		if i := strings.LastIndex(t.Type, "/"); i > 0 {
			targetType = t.Type[:i]
			taskType = t.Type[i+1:]
		}''')]
NEEDS="a task type with more than one slash"
BREAKS="a task set whose task types are accepted by their targets does not load"
DEMO='''package parser_test

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/sh"
	"github.com/sjansen/pgutil/internal/taskset/types"
)

func TestDemo(t *testing.T) {
	f := os.Getenv("TMPDIR") + "/t.hcl"
	ioutil.WriteFile(f, []byte("task \\"sh/exec/quiet\\" \\"x\\" {\\n  args = [\\"true\\"]\\n}\\n"), 0600)
	p := &parser.Parser{Targets: map[string]types.TargetFactory{"sh": &sh.TargetFactory{Log: logger.Discard()}}}
	ts, err := p.Parse(f)
	if err != nil || len(ts.Tasks) != 1 {
		t.Fatal(err)
	}
}
'''
