package commands_test

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hashicorp/hcl2/gohcl"
	"github.com/hashicorp/hcl2/hclwrite"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/verifkit"
	"github.com/sjansen/pgutil/internal/verifpg"
)

//verif:shared

// verifTied tells whether the order asked for leaves a choice.
func verifTied(db *ddl.Database, c *commands.InspectCmd) bool {
	seen := map[string]bool{}
	again := func(x ...interface{}) bool {
		k := fmt.Sprintf("%q", x)
		defer func() { seen[k] = true }()
		return seen[k]
	}
	for n, t := range db.Tables {
		for _, x := range t.Columns {
			if c.SortColumns && again("col", n, x.Name) {
				return true
			}
		}
		for _, x := range t.Checks {
			if c.SortChecks && again("chk", n, x.Expression) {
				return true
			}
		}
	}
	for _, x := range db.Indexes {
		if c.SortIndexes && again("idx", x.Schema, x.Table, x.Name) {
			return true
		}
	}
	return false
}

// verifDatabase runs the commands that use a database.
func verifDatabase(t *testing.T, k *verifkit.K) {
	dir := filepath.Join(verifScratch(t), "db")
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PG") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	os.Setenv("HOME", dir)
	os.Setenv("PGPASSFILE", dir+"/none")
	pick := func(xs ...string) string { return xs[k.R.Intn(len(xs))] }
	os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "out"), 0o755)
	s, err := verifpg.Start()
	if err != nil {
		t.Fatal(err)
	}
	defer s.Stop()
	db := verifpg.Random(k.R)
	broken := ""
	if k.R.Intn(4) == 0 {
		keys := db.Keys()
		broken = db.Break(keys[k.R.Intn(len(keys))], k.R)
	}
	version := pick("PostgreSQL 9.6", "x", "100%d", "a\nb", "")
	noVersion := k.R.Intn(4) == 0
	s.Handle = func(sql string, args []string) *verifpg.Result {
		if strings.Contains(strings.ToUpper(sql), "VERSION()") {
			if noVersion {
				return nil
			}
			return &verifpg.Result{Cols: []verifpg.Col{{Name: "version", OID: verifpg.Text}}, Rows: [][]*string{{&version}}}
		}
		return db.Handle(sql, args)
	}
	env := map[string]string{}
	setting := func(name, right, wrong string) (string, string) {
		switch k.R.Intn(3) {
		case 0:
			env[name] = right
			return "", right
		case 1:
			env[name] = wrong
		}
		return right, right
	}
	host, _ := setting("PGHOST", pick("localhost", "127.0.0.1"), "127.0.0.2")
	port, _ := setting("PGPORT", fmt.Sprint(s.Port), "1")
	user, wantUser := setting("PGUSER", pick("al", "b b"), "wrong")
	name, wantName := setting("PGDATABASE", pick("db", "x y"), "wrong")
	for _, n := range []string{"PGHOST", "PGUSER", "PGDATABASE", "PGPORT"} {
		if v, ok := env[n]; ok {
			os.Setenv(n, v)
		} else {
			os.Unsetenv(n)
		}
	}
	defer func() {
		for n := range env {
			os.Unsetenv(n)
		}
	}()
	var portN uint16
	if port != "" {
		portN = s.Port
	}
	mode := pick("disable", "disable", "allow", "prefer", "", "require", "verify-full", "disable", "nonsense")
	connects := mode != "require" && mode != "verify-full" && mode != "nonsense"
	connection := func() string {
		if n := s.Open(0); n != 0 {
			return fmt.Sprintf("%d connections are left open", n)
		}
		as := s.Attempts()
		if mode == "nonsense" && len(as) > 0 || mode != "nonsense" && len(as) == 0 {
			return fmt.Sprintf("there were %d attempts to connect", len(as))
		}
		started := 0
		for _, a := range as {
			if !a.Started {
				continue
			}
			started++
			if a.Params["user"] != wantUser || a.Params["database"] != wantName {
				return fmt.Sprintf("connected with user %q and database %q, should be %q and %q", a.Params["user"], a.Params["database"], wantUser, wantName)
			}
		}
		if want := map[bool]int{true: 1}[connects]; started != want {
			return fmt.Sprintf("%d connections were made, should be %d", started, want)
		}
		return ""
	}
	rows := map[string]interface{}{}
	for key, r := range db.Rows {
		rows[fmt.Sprint(key)] = r
	}
	text, _ := json.Marshal(rows)
	input := fmt.Sprintf("environment %v; a server on port %d without TLS", env, s.Port)
	var out, errs verifWriter
	out.WriteString("before\n")
	printed := func() string { return strings.TrimPrefix(out.String(), "before\n") }
	if k.R.Intn(3) == 0 {
		c := &commands.PingCmd{Host: host, Port: portN, SSLMode: mode, DBName: name, Username: user}
		k.Do(fmt.Sprintf("%+v; %s with version %q (missing: %v)", *c, input, version, noVersion), func() string {
			err := c.Run(verifBase(&out, &errs))
			if m := connection(); m != "" {
				return m
			}
			if (err == nil) != (connects && !noVersion) {
				return fmt.Sprintf("error: %v", err)
			}
			want := ""
			if err == nil {
				want = version + "\n"
			}
			if printed() != want || errs.Len() > 0 {
				return fmt.Sprintf("printed %q, should be %q", printed(), want)
			}
			return ""
		})
		return
	}
	c := &commands.InspectCmd{Host: host, Port: portN, SSLMode: mode, DBName: name, Username: user,
		SortChecks: k.R.Intn(2) == 0, SortColumns: k.R.Intn(2) == 0, SortIndexes: k.R.Intn(2) == 0}
	opens := true
	switch k.R.Intn(5) {
	case 0:
		c.Output = "-"
	case 1, 2:
		c.Output = filepath.Join(dir, "out", pick("a.hcl", "-", "b"))
	case 3:
		c.Output, opens = filepath.Join(dir, "missing", "a.hcl"), false
	}
	file := c.Output != "" && c.Output != "-"
	before := strings.Repeat("earlier contents\n", 4000)
	if file && opens && k.R.Intn(2) == 0 {
		verifWrite(t, c.Output, before)
		input += ", the output file exists"
	}
	k.Do(fmt.Sprintf("%+v; %s and rows %s search_path %q, timezone %q, legacy %v; broken: %s", *c, input, text, db.SearchPath, db.Timezone, db.Legacy, broken), func() string {
		want := db.Want(c.SortChecks, c.SortColumns, c.SortIndexes)
		f := hclwrite.NewEmptyFile()
		gohcl.EncodeIntoBody(want, f.Body())
		err := c.Run(verifBase(&out, &errs))
		if m := connection(); m != "" {
			return m
		}
		got := printed()
		if errs.Len() > 0 {
			return "there is error output"
		}
		if !connects || broken != "" || file && !opens {
			if err == nil {
				return "there is no error"
			}
			if got != "" {
				return fmt.Sprintf("there is an error and output %q", got)
			}
			return ""
		}
		if err != nil {
			return "failed: " + err.Error()
		}
		if file {
			if got != "" {
				return "there is output, it should only go to the file"
			}
			b, err := os.ReadFile(c.Output)
			if err != nil {
				return "the output file: " + err.Error()
			}
			got = string(b)
		}
		if verifTied(want, c) {
			return ""
		}
		if !bytes.Equal([]byte(got), f.Bytes()) {
			return fmt.Sprintf("wrote %q, should be %q", got, f.Bytes())
		}
		return ""
	})
}
