import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P12"; PKG="internal/commands"
EDITS=[("internal/commands/inspect.go",'''	conn, err := pg.New(&pg.Options{
		Log: base.Log,
''','''	if c.DBName == "" {
		c.DBName = c.Username
	}
	conn, err := pg.New(&pg.Options{
		Log: base.Log,
''')]
NEEDS="an explicit user name with the database named in the environment only"
BREAKS="the database of the environment is not used"
DEMO='''package commands_test

import (
	"bytes"
	"io"
	"net"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
)

func TestDemo(t *testing.T) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("PGDATABASE", "thedb")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	got := make(chan string, 9)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			n := make([]byte, 4)
			io.ReadFull(c, n)
			b := make([]byte, int(n[3])+256*int(n[2])-4)
			io.ReadFull(c, b)
			got <- string(b)
			c.Close()
		}
	}()
	var out, errs bytes.Buffer
	c := &commands.InspectCmd{Host: "127.0.0.1", Port: uint16(l.Addr().(*net.TCPAddr).Port), SSLMode: "disable", Username: "u"}
	c.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &errs}})
	if s := <-got; !strings.Contains(s, "database\\x00thedb\\x00") {
		t.Fatalf("%q", s)
	}
}
'''
