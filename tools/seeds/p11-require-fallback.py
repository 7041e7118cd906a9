PROP="P11"; PKG="internal/pg"
EDITS=[("internal/pg/pg.go","""	case "require":
		cfg.UseFallbackTLS = false
""","""	case "require":
""")]
NEEDS="a server that refuses encryption; the environment's default mode (prefer) leaves its fallback to a plain connection enabled"
BREAKS="sslmode require falls back to an unencrypted connection"
DEMO='''package pg_test

import (
	"io"
	"net"
	"os"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
)

func TestDemo(t *testing.T) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var plain int32
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 8)
			if _, err := io.ReadFull(c, b); err == nil && b[7] == 47 {
				c.Write([]byte("N"))
			} else {
				atomic.AddInt32(&plain, 1)
			}
			c.Close()
		}
	}()
	pg.New(&pg.Options{Log: logger.Discard(), Host: "127.0.0.1", Port: uint16(l.Addr().(*net.TCPAddr).Port), Username: "u", SSLMode: "require"})
	time.Sleep(50 * time.Millisecond)
	if atomic.LoadInt32(&plain) != 0 {
		t.Fatal("a plain connection was attempted")
	}
}
'''
