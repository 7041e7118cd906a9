PROP="P09"; PKG="internal/runbook/sh"
EDITS=[("internal/runbook/sh/env.go","""strings.Index(kv, "=")""","""strings.LastIndex(kv, "=")""")]
NEEDS="an inherited variable whose value contains an equals sign and that is named in one of the lists"
BREAKS="the variable's name is taken to reach into its value, so a denied variable is passed on"
DEMO='''package sh_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/sh"
)

func TestDemo(t *testing.T) {
	e := sh.Env{Deny: []string{"PGOPTIONS"}}
	if got := e.Apply([]string{"PGOPTIONS=-c x=y", "B=2"}); len(got) != 1 {
		t.Fatal(got)
	}
}
'''
