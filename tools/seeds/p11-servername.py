PROP="P11"; PKG="internal/pg"
EDITS=[("internal/pg/pg.go","""	cfg.Host = firstOfString(o.Host, cfg.Host)
	cfg.Port""","""	cfg.Port"""),("internal/pg/pg.go","""	cfg.Logger = zapadapter.NewLogger(""","""	cfg.Host = firstOfString(o.Host, cfg.Host)
	cfg.Logger = zapadapter.NewLogger(""")]
NEEDS="mode verify-full and a host given as an option that differs from the environment's"
BREAKS="the server's certificate is checked against the environment's host name instead of the one connected to"
DEMO='''package pg_test

import (
	"crypto/tls"
	"errors"
	"io"
	"net"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
)

func TestDemo(t *testing.T) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("PGHOST", "elsewhere.example")
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	names := make(chan string, 10)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b := make([]byte, 8)
			io.ReadFull(c, b)
			c.Write([]byte("S"))
			s := tls.Server(c, &tls.Config{GetConfigForClient: func(h *tls.ClientHelloInfo) (*tls.Config, error) {
				names <- h.ServerName
				return nil, errors.New("no")
			}})
			s.Handshake()
			c.Close()
		}
	}()
	pg.New(&pg.Options{Log: logger.Discard(), Host: "localhost", Port: uint16(l.Addr().(*net.TCPAddr).Port), Username: "u", SSLMode: "verify-full"})
	select {
	case n := <-names:
		if n != "localhost" {
			t.Fatal(n)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no TLS connection")
	}
}
'''
