PROP="P10"; PKG="internal/runbook/sh"
EDITS=[("internal/runbook/sh/exec.go","""	cmd.Env = x.Env.Apply(t.environ)
""","""	cmd.Env = t.environ
	if len(x.Env.Deny) > 0 || len(x.Env.Set) > 0 {
		cmd.Env = x.Env.Apply(t.environ)
	}
""")]
NEEDS="a task whose environment rules consist of an allow list only"
BREAKS="the command sees variables that the task's allow list does not name"
DEMO='''package sh_test

import (
	"bytes"
	"context"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/sh"
)

func TestDemo(t *testing.T) {
	os.Setenv("VERIF_SECRET", "hush")
	var out bytes.Buffer
	f := &sh.TargetFactory{Basedir: t.TempDir(), Stdout: &out, Stderr: &out}
	target := f.NewTarget()
	if err := target.Start(); err != nil {
		t.Fatal(err)
	}
	x := &sh.Exec{Args: []string{"/usr/bin/env"}, Env: sh.Env{Allow: []string{"PATH"}}}
	if err := target.Handle(context.Background(), x); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(out.String(), "VERIF_SECRET") {
		t.Fatal(out.String())
	}
}
'''
