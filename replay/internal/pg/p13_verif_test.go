package pg_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/verifkit"
	"github.com/sjansen/pgutil/internal/verifpg"
)

func TestVerifReplayP13(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	verifClearEnv(verifScratch(t))
	for k.More() {
		s, err := verifpg.Start()
		if err != nil {
			t.Fatal(err)
		}
		db := verifpg.Random(k.R)
		s.Handle = db.Handle
		c := verifOpen(t, s)
		broken := verifpg.Key{}
		mode := ""
		if k.R.Intn(2) == 0 {
			ks := db.Keys()
			broken = ks[k.R.Intn(len(ks))]
			mode = db.Break(broken, k.R)
		}
		type listing struct {
			name string
			key  verifpg.Key
			run  func() (interface{}, error)
			want interface{}
		}
		ls := []listing{
			{"ListTables", verifpg.Key{Kind: "tables"}, func() (interface{}, error) { return c.ListTables() }, db.WantTables()},
			{"ListSchemas", verifpg.Key{Kind: "schemas"}, func() (interface{}, error) { return c.ListSchemas() }, db.WantSchemas()},
			{"ListFunctions", verifpg.Key{Kind: "functions"}, func() (interface{}, error) { return c.ListFunctions() }, db.WantFunctions()},
			{"ListSequences", verifpg.Key{Kind: "sequences"}, func() (interface{}, error) { return c.ListSequences() }, db.WantSequences()},
			{"ListParameters", verifpg.Key{Kind: "search_path"}, func() (interface{}, error) { return c.ListParameters() }, db.WantParameters()},
		}
		for _, x := range db.WantTables() {
			sc, tb := x.Schema, x.Name
			ls = append(ls,
				listing{"ListColumns", verifpg.Key{"columns", sc, tb}, func() (interface{}, error) { return c.ListColumns(sc, tb) }, db.WantColumns(sc, tb)},
				listing{"ListChecks", verifpg.Key{"checks", sc, tb}, func() (interface{}, error) { return c.ListChecks(sc, tb) }, db.WantChecks(sc, tb)},
				listing{"ListForeignKeys", verifpg.Key{"fks", sc, tb}, func() (interface{}, error) { return c.ListForeignKeys(sc, tb) }, db.WantForeignKeys(sc, tb)},
				listing{"ListIndexes", verifpg.Key{"indexes", sc, tb}, func() (interface{}, error) { return c.ListIndexes(sc, tb) }, db.WantIndexes(sc, tb)},
				listing{"ListTriggers", verifpg.Key{"triggers", sc, tb}, func() (interface{}, error) { return c.ListTriggers(sc, tb) }, db.WantTriggers(sc, tb)},
				listing{"ListTableStorageParameters", verifpg.Key{"params", sc, tb}, func() (interface{}, error) { return c.ListTableStorageParameters(sc, tb) }, db.WantStorageParameters(sc, tb)})
		}
		k.R.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		lost := false
		for _, l := range ls {
			if lost {
				c.Close()
				c = verifOpen(t, s)
				lost = false
			}
			key := l.key
			hit := mode != "" && (key == broken || key.Kind == "sequences" && (broken.Kind == "view" || broken.Kind == "values") || key.Kind == "search_path" && broken.Kind == "timezone")
			input := fmt.Sprintf("%s(%q, %q) of rows %s", l.name, key.Schema, key.Table, verifJSON(db.Rows[key]))
			if key.Kind == "search_path" {
				input = fmt.Sprintf("%s with search_path %q, timezone %q", l.name, db.SearchPath, db.Timezone)
			}
			if hit {
				input += fmt.Sprintf("; the answer to %v goes wrong: %s", broken, mode)
				lost = mode == "drop"
			}
			k.Do(input, func() string {
				got, err := l.run()
				v := reflect.ValueOf(got)
				if hit {
					if err == nil {
						return "no error, but " + verifJSON(got)
					}
					if !v.IsNil() {
						return "an error and a partial list: " + verifJSON(got)
					}
					return ""
				}
				if err != nil {
					return "error: " + err.Error()
				}
				if !verifSame(got, l.want) {
					return fmt.Sprintf("reported %s, the rows say %s", verifJSON(got), verifJSON(l.want))
				}
				return ""
			})
		}
		if lost {
			c.Close()
			c = verifOpen(t, s)
		}
		verifDescribe(k, c, db)
		c.Close()
		s.Stop()
	}
}

func verifDescribe(k *verifkit.K, c *pg.Conn, db *verifpg.DB) {
	fs := db.WantFunctions()
	if len(fs) > 0 && db.Fault[verifpg.Key{Kind: "functions"}] == "" {
		f := fs[k.R.Intn(len(fs))]
		for _, g := range fs { // the first of that name
			if g.Schema == f.Schema && g.Name == f.Name {
				f = g
				break
			}
		}
		k.Do(fmt.Sprintf("DescribeFunction(%q, %q) of %s", f.Schema, f.Name, verifJSON(fs)), func() string {
			got, err := c.DescribeFunction(f.Schema, f.Name)
			if err != nil {
				return "error: " + err.Error()
			}
			if !verifSame(got, f) {
				return "reported " + verifJSON(got)
			}
			return ""
		})
	}
	k.Do("DescribeFunction of a function there is not", func() string {
		got, err := c.DescribeFunction("no", "such thing")
		if err != pg.ErrNotFound || got != nil {
			return fmt.Sprintf("%v, %v", got, err)
		}
		return ""
	})
	k.Do("DescribeTrigger of a trigger there is not", func() string {
		got, err := c.DescribeTrigger("no", "such", "thing")
		if err != pg.ErrNotFound || got != nil {
			return fmt.Sprintf("%v, %v", got, err)
		}
		return ""
	})
	for _, t := range db.WantTables() {
		key := verifpg.Key{"triggers", t.Schema, t.Name}
		rows := db.Rows[key]
		if len(rows) == 0 || db.Fault[key] != "" {
			continue
		}
		x := rows[0]
		k.Do(fmt.Sprintf("DescribeTrigger(%q, %q, %q) of %s", t.Schema, t.Name, *x["t.tgname"], verifJSON(rows)), func() string {
			want, err := ddl.ParseTrigger(*x["pg_get_triggerdef"])
			if err != nil {
				return ""
			}
			want.Schema = t.Schema
			got, err := c.DescribeTrigger(t.Schema, t.Name, *x["t.tgname"])
			if err != nil {
				return "error: " + err.Error()
			}
			if !verifSame(got, want) {
				return "reported " + verifJSON(got)
			}
			return ""
		})
	}
	k.Do("ServerVersion", func() string {
		v, err := c.ServerVersion()
		if err != nil || !strings.HasPrefix(v, "PostgreSQL 9.6 (") {
			return fmt.Sprintf("%q %v", v, err)
		}
		return ""
	})
}
