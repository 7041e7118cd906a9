PROP="P24"; PKG="internal/commands"
EDITS=[("internal/commands/runbook_list.go",'''"  %-*s  %s\\n", longest, task, target)''','''"  %-*.24s  %s\\n", longest, task, target)''')]
NEEDS="a task name of more than 24 characters"
BREAKS="long task names are cut off in listings"
DEMO='''package commands_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
)

func TestDemo(t *testing.T) {
	f := os.Getenv("TMPDIR") + "/b.json"
	ioutil.WriteFile(f, []byte(`{"targets":{"d":{"class":"demo"}},"tasks":{"a_task_with_a_rather_long_name":{"target":"d/echo"}}}`), 0600)
	var out bytes.Buffer
	err := (&commands.RunBookListCmd{File: f}).Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}})
	if err != nil || !strings.Contains(out.String(), "  a_task_with_a_rather_long_name  d\\n") {
		t.Fatal(err, out.String())
	}
}
'''
