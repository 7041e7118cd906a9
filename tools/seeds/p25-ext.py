PROP="P25"; PKG="internal/commands"
EDITS=[("internal/commands/runbook_dot.go",'''		output = src[:len(src)-len(ext)] + ".dot"
''','''		output = strings.Replace(src, ext, ".dot", 1)
'''),("internal/commands/runbook_dot.go",'''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')]
NEEDS="automatic naming and a runbook without extension, or one whose extension also occurs earlier in its path"
BREAKS="the graph is written to another place"
DEMO='''package commands_test

import (
	"bytes"
	"io/ioutil"
	"os"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
)

func TestDemo(t *testing.T) {
	d := os.Getenv("TMPDIR") + "/x.js.d"
	os.MkdirAll(d, 0700)
	f := d + "/b.js"
	ioutil.WriteFile(f, []byte(`{"targets":{"d":{"class":"demo"}},"tasks":{"a":{"target":"d/echo"}}}`), 0600)
	var out bytes.Buffer
	err := (&commands.RunBookDotCmd{File: f, AutoOut: true}).Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &out}})
	if _, e := os.Stat(d + "/b.dot"); err != nil || e != nil {
		t.Fatal(err, e)
	}
}
'''
