PROP="P24"; PKG="internal/commands"
EDITS=[("internal/runbook/runbook.go","""	for dstID, task := range runbook.Tasks {
""","""	seen := map[string]bool{}
	for dstID, task := range runbook.Tasks {
"""),("internal/runbook/runbook.go","""		for _, srcID := range task.After {
""","""		for _, srcID := range task.After {
			if seen[srcID] {
				continue // listed twice
			}
			seen[srcID] = true
""")]
NEEDS="a task that two others run after"
BREAKS="only one of the arrows from a task to those that run after it is drawn"
DEMO='''package commands_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
)

func TestDemo(t *testing.T) {
	f := os.Getenv("TMPDIR") + "/b.json"
	ioutil.WriteFile(f, []byte(`{"targets":{"d":{"class":"demo"}},"tasks":{"a":{"target":"d/echo"},"b":{"target":"d/echo","after":["a"]},"c":{"target":"d/echo","after":["a"]}}}`), 0600)
	var out bytes.Buffer
	err := (&commands.RunBookDotCmd{File: f}).Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}})
	if err != nil || strings.Count(out.String(), "->") != 2 {
		t.Fatal(err, out.String())
	}
}
'''
