package ddl_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/verifkit"
)

// sqlTokens splits SQL text: a quoted identifier is one token ("name), with its
// doubled quotes undone; white space separates; , ( ) ; stand alone.
func sqlTokens(s string) (r []string, bad string) {
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\n':
			i++
		case c == '"':
			j, name := i+1, ""
			for {
				if j >= len(s) {
					return r, "identifier without an end"
				}
				if s[j] == '"' {
					if j+1 < len(s) && s[j+1] == '"' {
						name += `"`
						j += 2
						continue
					}
					break
				}
				name += s[j : j+1]
				j++
			}
			if j+1 < len(s) && !strings.ContainsRune(" \n,();", rune(s[j+1])) {
				return r, "text directly after an identifier"
			}
			r = append(r, `"`+name)
			i = j + 1
		case strings.ContainsRune(",();", rune(c)):
			r = append(r, string(c))
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n,();\"", rune(s[j])) {
				j++
			}
			r = append(r, s[i:j])
			i = j
		}
	}
	return r, ""
}

func TestVerifReplayP20(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	names := []string{"a", "A b", `"`, `x"y`, `""`, `"; DROP TABLE t; --`, "é", "select", `a"`, `"a`, "a.b", `\`, "'", ""}
	name := func() string { return names[k.R.Intn(len(names))] }
	flag := func() bool { return k.R.Intn(2) == 0 }
	same := func(got string, err error, want []string) string {
		if err != nil {
			return err.Error()
		}
		toks, bad := sqlTokens(got)
		if bad != "" {
			return fmt.Sprintf("%s in %q", bad, got)
		}
		if fmt.Sprintf("%q", toks) != fmt.Sprintf("%q", want) {
			return fmt.Sprintf("%q reads %q, want %q", got, toks, want)
		}
		return ""
	}
	for k.More() {
		switch k.R.Intn(3) {
		case 0:
			tb := &ddl.Table{Schema: name(), Name: name()}
			want := []string{"CREATE", "TABLE", `"` + tb.Name, "("}
			for n := 1 + k.R.Intn(3); n > 0; n-- {
				c := &ddl.Column{Name: name(), Type: []string{"integer", "text"}[k.R.Intn(2)], NotNull: flag()}
				if flag() {
					c.Default = []string{"0", "now", "TRUE"}[k.R.Intn(3)]
				}
				if len(tb.Columns) > 0 {
					want = append(want, ",")
				}
				tb.Columns = append(tb.Columns, c)
				want = append(want, `"`+c.Name, c.Type)
				if c.NotNull {
					want = append(want, "NOT", "NULL")
				}
				if c.Default != "" {
					want = append(want, "DEFAULT", c.Default)
				}
			}
			for n := k.R.Intn(3); n > 0; n-- {
				c := &ddl.Check{Expression: []string{"x>0", "TRUE", "x"}[k.R.Intn(3)], Deferrable: flag()}
				tb.Checks = append(tb.Checks, c)
				want = append(want, ",", "CHECK", "(", c.Expression, ")")
			}
			want = append(want, ")", ";")
			k.Do(fmt.Sprintf("table %q with columns %s and %d checks", tb.Name, dump(tb.Columns), len(tb.Checks)), func() string {
				got, err := tb.ToSQL()
				return same(got, err, want)
			})
		case 1:
			x := &ddl.Index{Schema: name(), Table: name(), Name: name(), Primary: true, Unique: flag()}
			want := []string{"ALTER", "TABLE", `"` + x.Table, "ADD"}
			if x.Name != "" {
				want = append(want, "CONSTRAINT", `"`+x.Name)
			}
			want = append(want, "PRIMARY", "KEY", "(")
			for n := 1 + k.R.Intn(4); n > 0; n-- {
				if len(x.Keys) > 0 {
					want = append(want, ",")
				}
				x.Keys = append(x.Keys, &ddl.IndexKey{Column: name()})
				want = append(want, `"`+x.Keys[len(x.Keys)-1].Column)
			}
			want = append(want, ")", ";")
			k.Do(fmt.Sprintf("primary key %q of %q with keys %s", x.Name, x.Table, dump(x.Keys)), func() string {
				got, err := x.ToSQL()
				return same(got, err, want)
			})
		case 2:
			tr := &ddl.Trigger{Schema: name(), Table: name(), Name: name(), Function: "f", When: []string{"BEFORE", "AFTER", "INSTEAD OF"}[k.R.Intn(3)],
				Constraint: flag(), Deferrable: flag(), InitiallyDeferred: flag(), ForEachRow: flag(),
				Delete: flag(), Insert: flag(), Truncate: flag(), Update: flag()}
			if tr.Update {
				for n := k.R.Intn(4); n > 0; n-- {
					tr.Columns = append(tr.Columns, name())
				}
			}
			want := []string{"CREATE"}
			if tr.Constraint {
				want = append(want, "CONSTRAINT")
			}
			want = append(want, "TRIGGER", `"`+tr.Name)
			want = append(want, strings.Fields(tr.When)...)
			k.Do(fmt.Sprintf("trigger %+v", *tr), func() string {
				got, err := tr.ToSQL()
				if err != nil {
					return err.Error()
				}
				toks, bad := sqlTokens(got)
				if bad != "" {
					return fmt.Sprintf("%s in %q", bad, got)
				}
				if len(toks) < len(want) || fmt.Sprintf("%q", toks[:len(want)]) != fmt.Sprintf("%q", want) {
					return fmt.Sprintf("%q reads %q, want %q", got, toks, want)
				}
				// the events in any order, up to ON
				rest := toks[len(want):]
				events := map[string]int{}
				cols := []string{}
				i := 0
				for ; i < len(rest) && rest[i] != "ON"; i++ {
					switch rest[i] {
					case "OR":
						if i == 0 || rest[i+1] == "ON" || rest[i+1] == "OR" {
							return fmt.Sprintf("misplaced OR in %q", got)
						}
					case "INSERT", "UPDATE", "DELETE", "TRUNCATE":
						if i > 0 && rest[i-1] != "OR" {
							return fmt.Sprintf("missing OR in %q", got)
						}
						events[rest[i]]++
						if rest[i] == "UPDATE" && i+1 < len(rest) && rest[i+1] == "OF" {
							i++
							for sep := "OF"; i < len(rest) && rest[i] == sep; sep = "," {
								cols = append(cols, rest[i+1])
								i += 2
							}
							i--
						}
					default:
						return fmt.Sprintf("unexpected %q in %q", rest[i], got)
					}
				}
				for ev, on := range map[string]bool{"INSERT": tr.Insert, "UPDATE": tr.Update, "DELETE": tr.Delete, "TRUNCATE": tr.Truncate} {
					if on != (events[ev] == 1) || events[ev] > 1 {
						return fmt.Sprintf("event %s: %q", ev, got)
					}
				}
				wantCols := []string{}
				for _, c := range tr.Columns {
					wantCols = append(wantCols, `"`+c)
				}
				if fmt.Sprintf("%q", cols) != fmt.Sprintf("%q", wantCols) {
					return fmt.Sprintf("columns %q, want %q: %q", cols, wantCols, got)
				}
				tail := []string{"ON", `"` + tr.Table}
				if tr.Deferrable {
					tail = append(tail, "DEFERRABLE")
				}
				if tr.InitiallyDeferred {
					tail = append(tail, "INITIALLY", "DEFERRED")
				}
				if tr.ForEachRow {
					tail = append(tail, "FOR", "EACH", "ROW")
				}
				tail = append(tail, "EXECUTE", "PROCEDURE", "f", "(", ")", ";")
				rs := fmt.Sprintf("%q", rest[i:])
				if !tr.ForEachRow {
					rs = strings.Replace(rs, `"FOR" "EACH" "STATEMENT" `, "", 1)
				}
				if rs != fmt.Sprintf("%q", tail) {
					return fmt.Sprintf("%q ends %q, want %q", got, rest[i:], tail)
				}
				return ""
			})
		}
	}
}

func dump(x interface{}) string {
	switch x := x.(type) {
	case []*ddl.Column:
		r := []string{}
		for _, c := range x {
			r = append(r, fmt.Sprintf("%+v", *c))
		}
		return strings.Join(r, " ")
	case []*ddl.IndexKey:
		r := []string{}
		for _, c := range x {
			r = append(r, fmt.Sprintf("%q", c.Column))
		}
		return strings.Join(r, " ")
	}
	return ""
}
