package pg_test

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/verifkit"
	"github.com/sjansen/pgutil/internal/verifpg"
)

//verif:shared

func verifScratch(t *testing.T) string {
	if dir := os.Getenv("VERIF_SCRATCH"); dir != "" {
		return dir
	}
	return t.TempDir()
}

func verifClearEnv(dir string) {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("HOME", dir)
	os.Setenv("PGPASSFILE", dir+"/none")
}

func verifStr(s string) *string { return &s }

func verifVersion(sql string, args []string) *verifpg.Result {
	if strings.Contains(strings.ToUpper(sql), "VERSION()") {
		return &verifpg.Result{Cols: []verifpg.Col{{Name: "version", OID: verifpg.Text}}, Rows: [][]*string{{verifStr("PostgreSQL 9.6")}}}
	}
	return nil
}

// verifConnect tries one combination of options, environment and server.
func verifConnect(t *testing.T, k *verifkit.K, focus string) {
	dir := verifScratch(t)
	verifClearEnv(dir)
	good, self, err := verifpg.Certificates(dir, "localhost")
	if err != nil {
		t.Fatal(err)
	}
	pick := func(xs ...string) string { return xs[k.R.Intn(len(xs))] }
	for k.More() {
		s, err := verifpg.Start()
		if err != nil {
			t.Fatal(err)
		}
		s.Handle = verifVersion
		kind := pick("plain", "good", "self", "good", "self")
		switch kind {
		case "good":
			s.TLS = good
		case "self":
			s.TLS = self
		}
		s.OnlyTLS = s.TLS != nil && k.R.Intn(2) == 0
		s.Password = k.R.Intn(2) == 0
		fails := 0
		if focus == "P12" && k.R.Intn(2) == 0 || k.R.Intn(8) == 0 {
			fails = 1 + k.R.Intn(3)
		}
		s.FailFirst = fails
		env := map[string]string{}
		// a setting given, in the environment, or both
		both := func(name, right, wrong, none string) (explicit, effective string) {
			switch k.R.Intn(3) {
			case 0:
				if k.R.Intn(2) == 0 {
					env[name] = wrong
				}
				return right, right
			case 1:
				env[name] = right
				return "", right
			}
			env[name] = right
			return right, right
		}
		host := pick("localhost", "127.0.0.1")
		o := &pg.Options{Log: logger.Discard()}
		o.Host, host = both("PGHOST", host, "127.0.0.2", "")
		var user, database, password string
		o.Username, user = both("PGUSER", "al", "wrong", "")
		if k.R.Intn(4) != 0 {
			o.Database, database = both("PGDATABASE", "db 1", "wrong", "")
		}
		if k.R.Intn(2) == 0 {
			o.Password, password = both("PGPASSWORD", "s3cret", "wrong", "")
		}
		port, _ := both("PGPORT", fmt.Sprint(s.Port), "1", "")
		if port != "" {
			o.Port = s.Port
		}
		o.SSLMode = pick("", "", "disable", "allow", "prefer", "require", "verify-full", "verify-full", "disable")
		if k.R.Intn(12) == 0 {
			o.SSLMode = pick("verify-ca", "Disable", "none", " require", "verify_full", "full", "x")
		}
		o.ConnectRetries = []int{0, 0, 1, 1, 2, -1, -7}[k.R.Intn(7)]
		badEnv := k.R.Intn(40) == 0
		if badEnv {
			env["PGPORT"] = pick("abc", "70000", "-1")
		}
		for _, n := range []string{"PGHOST", "PGUSER", "PGDATABASE", "PGPASSWORD", "PGPORT"} {
			if v, ok := env[n]; ok {
				os.Setenv(n, v)
			} else {
				os.Unsetenv(n)
			}
		}
		input := fmt.Sprintf("server %s, only TLS %v, asks for a password %v, failing start-ups %d; environment %v; options host=%q port=%d sslmode=%q user=%q password=%q database=%q retries=%d",
			kind, s.OnlyTLS, s.Password, fails, env, o.Host, o.Port, o.SSLMode, o.Username, o.Password, o.Database, o.ConnectRetries)
		// what should happen
		mode := o.SSLMode
		if mode == "" {
			mode = "prefer" // what the environment asks for
			if password != "" {
				mode = "verify-full"
			}
		}
		var plan []string
		switch mode {
		case "disable":
			plan = []string{"plain"}
		case "allow":
			plan = []string{"plain", "tls"}
		case "prefer":
			plan = []string{"tls", "plain"}
		case "require":
			plan = []string{"tls"}
		case "verify-full":
			plan = []string{"verified"}
		}
		var want []verifpg.Attempt
		ok := false
		retries := o.ConnectRetries
		if retries < 0 {
			retries = 0
		}
		if !badEnv {
			left := fails
			for i := 0; i <= retries && !ok; i++ {
				for _, p := range plan {
					a := verifpg.Attempt{}
					switch {
					case p != "plain" && s.TLS == nil:
						a.Refused = true
					case p == "verified" && (kind != "good" || host != "localhost"):
						a.Broken = true
					default:
						a.Started, a.TLS = true, p != "plain"
						ok = !(s.OnlyTLS && p == "plain")
						if left > 0 {
							left--
							ok = false
						}
					}
					want = append(want, a)
					if ok {
						break
					}
				}
			}
		}
		k.Do(input, func() string {
			c, err := pg.New(o)
			open := 0
			if err == nil {
				open = 1
			}
			left := s.Open(open)
			got := s.Attempts()
			if (err == nil) != ok {
				return fmt.Sprintf("connected: %v (%v), should be %v; attempts %s, should be %s", err == nil, err, ok, verifpg.Describe(got), verifpg.Describe(want))
			}
			if a, b := verifpg.Describe(got), verifpg.Describe(want); a != b {
				return "the attempts were " + a + ", should be " + b
			}
			for i, a := range got {
				if !a.Started {
					continue
				}
				if a.Params["user"] != user || a.Params["database"] != database {
					return fmt.Sprintf("attempt %d used user %q and database %q, should be %q and %q", i, a.Params["user"], a.Params["database"], user, database)
				}
				if a.Password != "" && a.Password != password {
					return fmt.Sprintf("attempt %d used password %q, should be %q", i, a.Password, password)
				}
			}
			if err != nil {
				if c != nil {
					return "a connection was returned with an error"
				}
				if n := left; n != 0 {
					return fmt.Sprintf("%d connections are left open after an error", n)
				}
				return ""
			}
			if c == nil {
				return "neither a connection nor an error was returned"
			}
			last := got[len(got)-1]
			if s.Password && last.Password != password {
				return fmt.Sprintf("password %q was used, should be %q", last.Password, password)
			}
			if n := left; n != 1 {
				return fmt.Sprintf("%d connections are open, should be one", n)
			}
			if v, err := c.ServerVersion(); err != nil || v != "PostgreSQL 9.6" {
				return fmt.Sprintf("the connection does not work: %q, %v", v, err)
			}
			if err := c.Close(); err != nil {
				return "closing failed: " + err.Error()
			}
			if n := s.Open(0); n != 0 {
				return fmt.Sprintf("%d connections are open after closing", n)
			}
			return ""
		})
		s.Stop()
	}
}
