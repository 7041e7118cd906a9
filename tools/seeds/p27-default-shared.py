PROP="P27"; PKG="internal/taskset/parser"
EDITS=[("internal/taskset/parser/parser.go",'''		target := factory.NewTarget()
		err := gohcl''','''		target := ts.Targets[t.Type][types.TargetID(t.ID)]
		if target == nil {
			target = factory.NewTarget()
		}
		err := gohcl''')]
NEEDS="a target declared twice under one name, with an optional setting only in the first declaration"
BREAKS="the loaded target keeps a setting its declaration does not have"
DEMO='''package parser_test

import (
	"io/ioutil"
	"os"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/taskset/demo"
	"github.com/sjansen/pgutil/internal/taskset/parser"
	"github.com/sjansen/pgutil/internal/taskset/types"
)

func TestDemo(t *testing.T) {
	f := os.Getenv("TMPDIR") + "/t.hcl"
	ioutil.WriteFile(f, []byte("target \\"demo\\" \\"a\\" {\\n  string = \\"x\\"\\n  max_concurrency = 7\\n}\\ntarget \\"demo\\" \\"a\\" {\\n  string = \\"y\\"\\n}\\n"), 0600)
	p := &parser.Parser{Targets: map[string]types.TargetFactory{"demo": &demo.TargetFactory{Log: logger.Discard(), Stdout: ioutil.Discard}}}
	ts, err := p.Parse(f)
	if err != nil {
		t.Fatal(err)
	}
	if x := ts.Targets["demo"]["a"].(*demo.Target); x.String != "y" || x.MaxConcurrency != 1 {
		t.Fatal(x.String, x.MaxConcurrency)
	}
}
'''
