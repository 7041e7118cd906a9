PROP="P12"; PKG="internal/pg"
EDITS=[("internal/pg/pg.go","""firstOfUint16(o.Port, cfg.Port)""","""firstOfUint16(cfg.Port, o.Port)""")]
NEEDS="a port given as an option and another in the environment"
BREAKS="the environment's port is used instead of the one given"
DEMO='''package pg_test

import (
	"net"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
)

func TestDemo(t *testing.T) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("PGPORT", "1")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	used := make(chan bool, 10)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			used <- true
			c.Close()
		}
	}()
	pg.New(&pg.Options{Log: logger.Discard(), Host: "127.0.0.1", Port: uint16(l.Addr().(*net.TCPAddr).Port), Username: "u", SSLMode: "disable"})
	select {
	case <-used:
	case <-time.After(5 * time.Second):
		t.Fatal("the given port was not used")
	}
}
'''
