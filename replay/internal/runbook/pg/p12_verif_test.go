package pg_test

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/runbook/pg"
	"github.com/sjansen/pgutil/internal/verifkit"
	"github.com/sjansen/pgutil/internal/verifpg"
)

func TestVerifReplayP12(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("PGPASSFILE", "/nonexistent")
	for k.More() {
		s, err := verifpg.Start()
		if err != nil {
			t.Fatal(err)
		}
		s.Password = true
		s.FailFirst = k.R.Intn(3)
		fails := s.FailFirst
		x := (&pg.TargetFactory{Log: logger.Discard()}).NewTarget().(*pg.Target)
		retries := []int{0, 1, 2, -1}[k.R.Intn(4)]
		cfg := map[string]interface{}{"host": "127.0.0.1", "port": s.Port, "username": "u1", "password": "p1", "database": "d1", "sslmode": "disable", "connect_retries": retries, "concurrency": 1 + k.R.Intn(3)}
		b, _ := json.Marshal(cfg)
		if err := json.Unmarshal(b, x); err != nil {
			t.Fatal(err)
		}
		tries := retries + 1
		if tries < 1 {
			tries = 1
		}
		ok := fails < tries
		n := tries
		if ok {
			n = fails + 1
		}
		k.Do(fmt.Sprintf("target with settings %s, %d start-ups fail", b, fails), func() string {
			err := x.Start()
			open := 0
			if ok {
				open = 1
			}
			if (err == nil) != ok {
				return fmt.Sprintf("started: %v (%v)", err == nil, err)
			}
			if g := s.Open(open); g != open {
				return fmt.Sprintf("%d connections are open, should be %d", g, open)
			}
			as := s.Attempts()
			if len(as) != n {
				return fmt.Sprintf("%d attempts, should be %d", len(as), n)
			}
			for _, a := range as {
				if a.TLS || a.Refused || a.Params["user"] != "u1" || a.Params["database"] != "d1" {
					return fmt.Sprintf("settings %v", a.Params)
				}
			}
			if ok {
				if as[n-1].Password != "p1" {
					return "another password is used"
				}
				if err := x.Stop(); err != nil {
					return "stopping: " + err.Error()
				}
				if g := s.Open(0); g != 0 {
					return "the connection is still open after the target stopped"
				}
			}
			return ""
		})
		s.Stop()
	}
}
