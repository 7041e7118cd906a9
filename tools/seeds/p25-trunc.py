PROP="P25"; PKG="internal/commands"
EDITS=[("internal/commands/runbook_eval.go",'''os.O_CREATE|os.O_TRUNC|os.O_WRONLY''','''os.O_CREATE|os.O_WRONLY''')]
NEEDS="an output file that exists and is longer than the new output"
BREAKS="the end of the file's earlier contents follows the output"
DEMO='''package commands_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
)

func TestDemo(t *testing.T) {
	d := os.Getenv("TMPDIR")
	f := d + "/b.json"
	ioutil.WriteFile(f, []byte(`{"targets":{},"tasks":{}}`), 0600)
	ioutil.WriteFile(d+"/out", []byte(strings.Repeat("x", 1000)), 0600)
	var out bytes.Buffer
	err := (&commands.RunBookEvalCmd{File: f, Output: d + "/out"}).Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}})
	b, _ := ioutil.ReadFile(d + "/out")
	if err != nil || strings.Contains(string(b), "x") {
		t.Fatal(err, string(b))
	}
}
'''
