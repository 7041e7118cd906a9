package pg_test

import (
	"fmt"
	"reflect"
	"sort"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/verifkit"
	"github.com/sjansen/pgutil/internal/verifpg"
)

// verifTies puts neighbours with the same key in a definite order.
func verifTies(list interface{}, key func(i int) string) {
	n := reflect.ValueOf(list).Len()
	text := func(i int) string { return verifJSON(reflect.ValueOf(list).Index(i).Interface()) }
	swap := reflect.Swapper(list)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && key(j-1) == key(j) && text(j) < text(j-1); j-- {
			swap(j-1, j)
		}
	}
}

func verifInspected(db *ddl.Database, o *pg.InspectOptions) string {
	if db == nil {
		return "nothing"
	}
	for _, t := range db.Tables {
		if t == nil {
			return "a table that is nil"
		}
		if o.SortColumns {
			verifTies(t.Columns, func(i int) string { return t.Columns[i].Name })
		}
		if o.SortChecks {
			verifTies(t.Checks, func(i int) string { return t.Checks[i].Expression })
		}
	}
	if o.SortIndexes {
		verifTies(db.Indexes, func(i int) string {
			x := db.Indexes[i]
			return fmt.Sprintf("%q.%q.%q", x.Schema, x.Table, x.Name)
		})
	}
	return fmt.Sprint(verifNorm(db))
}

func TestVerifReplayP14(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	verifClearEnv(verifScratch(t))
	for k.More() {
		s, err := verifpg.Start()
		if err != nil {
			t.Fatal(err)
		}
		db := verifpg.Random(k.R)
		// now and then more entries, and entries with the same names
		var ks []verifpg.Key
		for key, rows := range db.Rows {
			if len(rows) > 0 && (key.Kind == "columns" || key.Kind == "checks" || key.Kind == "indexes") {
				ks = append(ks, key)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, key := range ks {
			if k.R.Intn(4) == 0 {
				rows := db.Rows[key]
				for i := k.R.Intn(20); i > 0; i-- {
					rows = append(rows, rows[k.R.Intn(len(rows))])
				}
				db.Rows[key] = rows
			}
		}
		o := &pg.InspectOptions{SortChecks: k.R.Intn(2) == 0, SortColumns: k.R.Intn(2) == 0, SortIndexes: k.R.Intn(2) == 0}
		arg := o
		if *o == (pg.InspectOptions{}) && k.R.Intn(2) == 0 {
			arg = nil
		}
		mode := ""
		var broken verifpg.Key
		if k.R.Intn(3) == 0 {
			keys := db.Keys()
			broken = keys[k.R.Intn(len(keys))]
			mode = db.Break(broken, k.R)
		}
		s.Handle = db.Handle
		c := verifOpen(t, s)
		rows := map[string]interface{}{}
		for key, r := range db.Rows {
			rows[fmt.Sprint(key)] = r
		}
		input := fmt.Sprintf("InspectDatabase(%s) of a database with rows %s, search_path %q, timezone %q, server without a sequences view: %v", verifJSON(arg), verifJSON(rows), db.SearchPath, db.Timezone, db.Legacy)
		if mode != "" {
			input += fmt.Sprintf("; the answer to %v goes wrong: %s", broken, mode)
		}
		k.Do(input, func() string {
			got, err := c.InspectDatabase(arg)
			if mode != "" {
				if err == nil {
					return "no error, but " + verifJSON(got)
				}
				if got != nil {
					return "an error and a partial description: " + verifJSON(got)
				}
				return ""
			}
			if err != nil {
				return "error: " + err.Error()
			}
			w := verifInspected(db.Want(o.SortChecks, o.SortColumns, o.SortIndexes), o)
			if g := verifInspected(got, o); g != w {
				return fmt.Sprintf("reported %s, the rows say %s", g, w)
			}
			return ""
		})
		c.Close()
		s.Stop()
	}
}
