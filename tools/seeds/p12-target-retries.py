PROP="P12"; PKG="internal/runbook/pg"
EDITS=[("internal/runbook/pg/pg.go","""
		ConnectRetries: t.ConnectRetries,
""","""
		ConnectRetries: t.Concurrency,
""")]
NEEDS="a runbook target whose connections fail"
BREAKS="a runbook target's connection is retried as often as the target's concurrency"
DEMO='''package pg_test

import (
	"net"
	"os"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook/pg"
)

func TestDemo(t *testing.T) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var n int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			atomic.AddInt32(&n, 1)
			c.Close()
		}
	}()
	x := (&pg.TargetFactory{Log: logger.Discard()}).NewTarget().(*pg.Target)
	x.Host, x.Port, x.Username, x.SSLMode = "127.0.0.1", uint16(l.Addr().(*net.TCPAddr).Port), "u", "disable"
	x.Start()
	time.Sleep(50 * time.Millisecond)
	if n := atomic.LoadInt32(&n); n != 1 {
		t.Fatal(n)
	}
}
'''
