package verifpg

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/sjansen/pgutil/internal/ddl"
)

// Row is a row of a result: values by what the query selects.
type Row map[string]*string

// Key names a listing: of a table's parts, or of the whole database.
type Key struct{ Kind, Schema, Table string }

// DB is a made-up database.
type DB struct {
	SearchPath, Timezone string
	Legacy               bool // sequences have no view
	Rows                 map[Key][]Row
	// what goes wrong: "refuse", "fail", "drop" (after the rows there are),
	// "null", "text" (the rows themselves are bad)
	Fault map[Key]string

	mu    sync.Mutex
	Asked []Key
}

func txt(s string) *string { return &s }

// val: the text of a value, empty when absent
func (r Row) val(k string) string {
	if r[k] == nil {
		return ""
	}
	return *r[k]
}

func (r Row) num(k string) int64 { n, _ := strconv.ParseInt(r.val(k), 10, 64); return n }

var sqlToken = regexp.MustCompile(`(?s)--[^\n]*|"(?:[^"]|"")*"|'(?:[^']|'')*'|\$\d+|[A-Za-z_][A-Za-z0-9_$]*|\d+|::|[<>=!~]+|\s+|.`)

func tokens(q string) []string {
	var r []string
	for _, t := range sqlToken.FindAllString(q, -1) {
		if strings.TrimSpace(t) == "" || strings.HasPrefix(t, "--") {
			continue
		}
		if c := t[0]; c == '_' || c >= 'A' && c <= 'Z' {
			t = strings.ToLower(t)
		}
		r = append(r, t)
	}
	return r
}

// selected lists what a query selects, without aliases.
func selected(q string) []string {
	toks := tokens(q)
	if len(toks) == 0 || toks[0] != "select" {
		return nil
	}
	var items [][]string
	cur := []string{}
	depth := 0
	for _, t := range toks[1:] {
		if depth == 0 && (t == "," || t == "from" || t == ";") {
			items = append(items, cur)
			cur = nil
			if t != "," {
				break
			}
			continue
		}
		switch t {
		case "(":
			depth++
		case ")":
			depth--
		}
		cur = append(cur, t)
	}
	if cur != nil {
		items = append(items, cur)
	}
	var r []string
	for _, it := range items {
		n := len(it)
		if n >= 2 && strings.HasPrefix(it[n-1], `"`) && it[n-2] != "." {
			it = it[:n-1]
			n--
		}
		if n >= 3 && it[n-2] == "as" {
			it = it[:n-2]
			n -= 2
		} else if n >= 2 && it[n-1] == "as" {
			it = it[:n-1]
		}
		s := strings.ReplaceAll(strings.Join(it, ""), "pg_catalog.", "")
		switch {
		case strings.Contains(s, "pg_get_expr("):
			s = "default"
		case strings.HasPrefix(s, "exists("):
			s = "exists"
		}
		if i := strings.Index(s, "("); i > 0 {
			s = s[:i] // a function is its name: each is used once in a query
		}
		r = append(r, s)
	}
	return r
}

func param(q, col string) int {
	toks := tokens(q)
	want := strings.Join(tokens(col), "")
	for i := 0; i+4 < len(toks); i++ {
		if strings.Join(toks[i:i+3], "") == want && toks[i+3] == "=" && toks[i+4][0] == '$' {
			n, _ := strconv.Atoi(toks[i+4][1:])
			return n
		}
	}
	return 0
}

// kinds of queries, by something only they select
var kinds = []struct{ by, kind string }{
	{"format_type+a.attname", "columns"}, {"pg_get_constraintdef+r.conname", "checks"}, {"pg_get_constraintdef+t.conname", "fks"},
	{"pg_get_indexdef", "indexes"}, {"pg_get_triggerdef", "triggers"}, {"unnest", "params"},
	{"pg_get_function_result", "functions"}, {"obj_description+n.nspname+pg_get_userbyid+c.relname+s.seqstart", "sequences"},
	{"a2.attname", "sequences"}, {"start_value", "values"}, {"exists", "view"}, {"c.relname", "tables"}, {"n.nspname", "schemas"},
}

var bools = map[string]bool{"a.attnotnull": true, "i.indisprimary": true, "exists": true, "s.seqcycle": true, "is_cycled": true}
var ints = map[string]bool{"s.seqstart": true, "s.seqmin": true, "s.seqmax": true, "s.seqincrement": true, "s.seqcache": true, "start_value": true, "min_value": true, "max_value": true, "increment_by": true, "cache_value": true}

// Handle answers a query.
func (db *DB) Handle(sql string, args []string) *Result {
	up := strings.ToUpper(strings.TrimSpace(sql))
	one := func(kind, v string) *Result {
		switch db.Fault[Key{Kind: kind}] {
		case "refuse":
			return &Result{Refuse: true}
		case "null":
			return &Result{Cols: []Col{{kind, Text}}, Rows: [][]*string{{nil}}}
		case "fail":
			return &Result{Cols: []Col{{kind, Text}}, Fail: true}
		case "drop":
			return &Result{Cols: []Col{{kind, Text}}, Drop: true}
		case "text": // no row at all
			return &Result{Cols: []Col{{kind, Text}}}
		}
		return &Result{Cols: []Col{{kind, Text}}, Rows: [][]*string{{&v}}}
	}
	switch {
	case strings.HasPrefix(up, "SHOW SEARCH_PATH"):
		return one("search_path", db.SearchPath)
	case strings.HasPrefix(up, "SHOW TIMEZONE"), strings.HasPrefix(up, "SHOW TIME ZONE"):
		return one("timezone", db.Timezone)
	case strings.Contains(up, "VERSION()"):
		return one("version", "PostgreSQL 9.6 ("+db.Timezone+")")
	}
	items := selected(sql)
	has := map[string]bool{}
	for _, i := range items {
		has[i] = true
	}
	kind := ""
	for _, k := range kinds {
		all := true
		for _, b := range strings.Split(k.by, "+") {
			all = all && has[b]
		}
		if all {
			kind = k.kind
			break
		}
	}
	if kind == "" {
		return nil
	}
	cols := []Col{}
	for _, i := range items {
		c := Col{Name: "c", OID: Text}
		if bools[i] {
			c.OID = Bool
		}
		if ints[i] {
			c.OID = Int8
		}
		cols = append(cols, c)
	}
	res := &Result{Cols: cols}
	key := Key{Kind: kind}
	arg := func(cols ...string) string {
		for _, c := range cols {
			if n := param(sql, c); n > 0 && n <= len(args) {
				return args[n-1]
			}
		}
		return ""
	}
	third := ""
	switch kind {
	case "columns", "checks", "fks", "indexes", "triggers", "params":
		key.Schema = arg("n.nspname")
		key.Table = arg("c.relname", "c1.relname")
		third = arg("t.tgname")
	case "functions":
		if param(sql, "n.nspname") > 0 {
			key = Key{Kind: "function", Schema: arg("n.nspname"), Table: arg("p.proname")}
		}
	case "values":
		// the sequence is named in the text
		f := sql[strings.LastIndex(strings.ToUpper(sql), "FROM")+4:]
		m := regexp.MustCompile(`(?s)^\s*"((?:[^"]|"")*)"\."((?:[^"]|"")*)"\s*;?\s*$`).FindStringSubmatch(f)
		if m == nil {
			return &Result{Refuse: true}
		}
		key.Schema, key.Table = strings.ReplaceAll(m[1], `""`, `"`), strings.ReplaceAll(m[2], `""`, `"`)
	}
	if len(args) > 0 || param(sql, "n.nspname") == 0 {
		db.mu.Lock()
		db.Asked = append(db.Asked, key)
		db.mu.Unlock()
	}
	rows := db.Rows[key]
	if key.Kind == "function" {
		for _, r := range db.Rows[Key{Kind: "functions"}] {
			if r.val("n.nspname") == key.Schema && r.val("p.proname") == key.Table {
				rows = append(rows, r)
			}
		}
	}
	if kind == "view" {
		v := "t"
		if db.Legacy {
			v = "f"
		}
		rows = []Row{{"exists": &v}}
	}
	if kind == "values" {
		for _, r := range db.Rows[Key{Kind: "sequences"}] {
			if r.val("n.nspname") == key.Schema && r.val("c.relname") == key.Table {
				rows = append(rows, Row{"start_value": r["s.seqstart"], "min_value": r["s.seqmin"], "max_value": r["s.seqmax"], "increment_by": r["s.seqincrement"], "cache_value": r["s.seqcache"], "is_cycled": r["s.seqcycle"]})
			}
		}
	}
	for _, r := range rows {
		if third != "" && r.val("t.tgname") != third {
			continue
		}
		vals := []*string{}
		for _, i := range items {
			vals = append(vals, r[i])
		}
		res.Rows = append(res.Rows, vals)
	}
	switch db.Fault[key] {
	case "refuse":
		return &Result{Cols: cols, Refuse: true}
	case "fail":
		res.Fail = true
	case "drop":
		res.Drop = true
	}
	return res
}

// Random makes a database; odd names where names are free.
func Random(r *rand.Rand) *DB {
	db := &DB{Rows: map[Key][]Row{}, Fault: map[Key]string{}}
	word := func() string {
		n := 1 + r.Intn(3)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcxyzAB"[r.Intn(8)]
		}
		return string(b)
	}
	name := func() string {
		if r.Intn(5) == 0 {
			return word() + []string{" ", `"`, "'", ".", "é", "_", "", "\n"}[r.Intn(8)] + word()
		}
		return word()
	}
	opt := func() *string {
		switch r.Intn(3) {
		case 0:
			return nil
		case 1:
			return txt(name())
		}
		return txt("")
	}
	some := func() *string { return txt(name()) }
	flag := func() *string { return txt([]string{"t", "f"}[r.Intn(2)]) }
	num := func() *string { return txt(strconv.FormatInt(r.Int63n(1<<40)-1<<20, 10)) }
	count := func() int { return []int{0, 1, 1, 2, 2, 3, 4, 6}[r.Intn(8)] }
	path := []string{}
	for i := 0; i < 1+r.Intn(3); i++ {
		path = append(path, word())
	}
	db.SearchPath, db.Timezone = strings.Join(path, []string{",", ", "}[r.Intn(2)]), name()
	db.Legacy = r.Intn(2) == 0
	k := Key{Kind: "schemas"}
	for i := count(); i > 0; i-- {
		db.Rows[k] = append(db.Rows[k], Row{"n.nspname": some(), "pg_get_userbyid": opt(), "obj_description": opt()})
	}
	k = Key{Kind: "functions"}
	for i := count(); i > 0; i-- {
		db.Rows[k] = append(db.Rows[k], Row{"n.nspname": some(), "p.proname": some(), "pg_get_userbyid": opt(), "obj_description": opt(), "pg_get_function_result": opt(), "l.lanname": opt(), "p.prosrc": opt()})
	}
	k = Key{Kind: "sequences"}
	seen := map[string]bool{}
	for i := count(); i > 0; i-- {
		row := Row{"n.nspname": some(), "c.relname": some(), "pg_get_userbyid": opt(), "obj_description": opt(), "format_type": opt(), "s.seqstart": num(), "s.seqmin": num(), "s.seqmax": num(), "s.seqincrement": num(), "s.seqcache": num(), "s.seqcycle": flag(), "n2.nspname": opt(), "c2.relname": opt(), "a2.attname": opt()}
		if id := row.val("n.nspname") + "\x00" + row.val("c.relname"); !seen[id] {
			seen[id] = true
			db.Rows[k] = append(db.Rows[k], row)
		}
	}
	k = Key{Kind: "tables"}
	for i := count(); i > 0; i-- {
		row := Row{"n.nspname": some(), "c.relname": some(), "pg_get_userbyid": opt(), "obj_description": opt()}
		s, t := row.val("n.nspname"), row.val("c.relname")
		if seen["t"+s+"\x00"+t] {
			continue
		}
		seen["t"+s+"\x00"+t] = true
		db.Rows[k] = append(db.Rows[k], row)
		for _, kind := range []string{"columns", "checks", "fks", "indexes", "triggers", "params"} {
			key := Key{kind, s, t}
			for j := count(); j > 0; j-- {
				var x Row
				switch kind {
				case "columns":
					x = Row{"a.attname": some(), "format_type": some(), "a.attnotnull": flag(), "default": opt(), "col_description": opt()}
				case "checks":
					x = Row{"r.conname": some(), "pg_get_constraintdef": txt("CHECK (" + word() + " > " + word() + ")" + []string{"", " DEFERRABLE", " DEFERRABLE INITIALLY DEFERRED"}[r.Intn(3)])}
				case "fks":
					x = Row{"t.conname": some(), "pg_get_constraintdef": txt(fmt.Sprintf("FOREIGN KEY (%s, %s) REFERENCES %s(%s, %s)%s", word(), word(), word(), word(), word(), []string{"", " ON DELETE CASCADE", " MATCH FULL", " DEFERRABLE"}[r.Intn(4)]))}
				case "indexes":
					nm := word()
					x = Row{"c2.relname": txt(nm), "i.indisprimary": flag(), "pg_get_indexdef": txt(fmt.Sprintf("CREATE %sINDEX %s ON %s USING btree (%s, %s)%s", []string{"", "UNIQUE "}[r.Intn(2)], nm, word(), word(), word(), []string{"", " WHERE x > 3"}[r.Intn(2)]))}
				case "triggers":
					nm := word()
					x = Row{"t.tgname": txt(nm), "pg_get_triggerdef": txt(fmt.Sprintf("CREATE TRIGGER %s %s %s ON %s FOR EACH %s EXECUTE PROCEDURE %s()", nm, []string{"BEFORE", "AFTER"}[r.Intn(2)], []string{"INSERT", "UPDATE OF a, b", "DELETE OR INSERT"}[r.Intn(3)], word(), []string{"ROW", "STATEMENT"}[r.Intn(2)], word()))}
				case "params":
					x = Row{"unnest": txt([]string{"fillfactor=" + strconv.Itoa(10+r.Intn(90)), "autovacuum_enabled=" + []string{"true", "false"}[r.Intn(2)], "autovacuum_vacuum_scale_factor=0." + strconv.Itoa(1+r.Intn(8)), "parallel_workers=" + strconv.Itoa(r.Intn(9)), "user_catalog_table=true", "other_setting=a=b", "unset"}[r.Intn(7)])}
				}
				db.Rows[key] = append(db.Rows[key], x)
			}
		}
	}
	return db
}

// Keys lists everything a complete inspection asks for.
func (db *DB) Keys() []Key {
	ks := []Key{{Kind: "search_path"}, {Kind: "timezone"}, {Kind: "schemas"}, {Kind: "functions"}, {Kind: "view"}, {Kind: "sequences"}, {Kind: "tables"}}
	if db.Legacy {
		for _, r := range db.Rows[Key{Kind: "sequences"}] {
			ks = append(ks, Key{"values", r.val("n.nspname"), r.val("c.relname")})
		}
	}
	for _, r := range db.Rows[Key{Kind: "tables"}] {
		for _, kind := range []string{"columns", "checks", "fks", "indexes", "triggers", "params"} {
			ks = append(ks, Key{kind, r.val("n.nspname"), r.val("c.relname")})
		}
	}
	return ks
}

// Break makes one listing fail and says how, or returns "" when it cannot.
func (db *DB) Break(k Key, r *rand.Rand) string {
	mode := []string{"refuse", "fail", "drop", "null", "text"}[r.Intn(5)]
	rows := db.Rows[k]
	bad := map[string][2]string{ // a column that must have a value; a definition text
		"columns": {"a.attname", ""}, "checks": {"r.conname", "pg_get_constraintdef"}, "fks": {"t.conname", "pg_get_constraintdef"},
		"indexes": {"pg_get_indexdef", "pg_get_indexdef"}, "triggers": {"pg_get_triggerdef", "pg_get_triggerdef"}, "params": {"unnest", "unnest"},
	}[k.Kind]
	switch {
	case k.Kind == "search_path" || k.Kind == "timezone":
	case k.Kind == "view" || k.Kind == "values":
		mode = []string{"refuse", "drop"}[r.Intn(2)]
	case mode == "null" || mode == "text":
		col := bad[0]
		if mode == "text" {
			col = bad[1]
		}
		if col == "" || len(rows) == 0 {
			mode = "fail"
			break
		}
		i := r.Intn(len(rows))
		x := Row{}
		for a, b := range rows[i] {
			x[a] = b
		}
		x[col] = nil
		if mode == "text" {
			x[col] = txt("CREATE nothing (")
			if k.Kind == "params" {
				x[col] = txt("fillfactor=many")
			}
		}
		rows = append([]Row{}, rows...)
		rows[i] = x
		db.Rows[k] = rows
	}
	db.Fault[k] = mode
	return mode
}

// What the listings should report.

func (db *DB) WantTables() (w []*ddl.Table) {
	for _, r := range db.Rows[Key{Kind: "tables"}] {
		w = append(w, &ddl.Table{Schema: r.val("n.nspname"), Name: r.val("c.relname"), Owner: r.val("pg_get_userbyid"), Comment: r.val("obj_description")})
	}
	return
}

func (db *DB) WantSchemas() (w []*ddl.Schema) {
	for _, r := range db.Rows[Key{Kind: "schemas"}] {
		w = append(w, &ddl.Schema{Name: r.val("n.nspname"), Owner: r.val("pg_get_userbyid"), Comment: r.val("obj_description")})
	}
	return
}

func (db *DB) WantFunctions() (w []*ddl.Function) {
	for _, r := range db.Rows[Key{Kind: "functions"}] {
		w = append(w, &ddl.Function{Schema: r.val("n.nspname"), Name: r.val("p.proname"), Owner: r.val("pg_get_userbyid"), Comment: r.val("obj_description"), Returns: r.val("pg_get_function_result"), Language: r.val("l.lanname"), Definition: r.val("p.prosrc")})
	}
	return
}

func (db *DB) WantSequences() (w []*ddl.Sequence) {
	for _, r := range db.Rows[Key{Kind: "sequences"}] {
		s := &ddl.Sequence{Schema: r.val("n.nspname"), Name: r.val("c.relname"), Owner: r.val("pg_get_userbyid"), Comment: r.val("obj_description"), DataType: r.val("format_type"),
			Start: r.num("s.seqstart"), Minimum: r.num("s.seqmin"), Maximum: r.num("s.seqmax"), Increment: r.num("s.seqincrement"), Cache: r.num("s.seqcache"), Cycle: r.val("s.seqcycle") == "t",
			OwnedBy: &ddl.SequenceOwner{Schema: r.val("n2.nspname"), Table: r.val("c2.relname"), Column: r.val("a2.attname")}}
		if db.Legacy {
			s.DataType = "bigint"
		}
		w = append(w, s)
	}
	return
}

func (db *DB) WantColumns(schema, table string) (w []*ddl.Column) {
	for _, r := range db.Rows[Key{"columns", schema, table}] {
		w = append(w, &ddl.Column{Name: r.val("a.attname"), Type: r.val("format_type"), NotNull: r.val("a.attnotnull") == "t", Default: r.val("default"), Comment: r.val("col_description")})
	}
	return
}

func (db *DB) WantChecks(schema, table string) (w []*ddl.Check) {
	for _, r := range db.Rows[Key{"checks", schema, table}] {
		if x, err := ddl.ParseCheck(r.val("pg_get_constraintdef")); err == nil {
			x.Name = r.val("r.conname")
			w = append(w, x)
		}
	}
	return
}

func (db *DB) WantForeignKeys(schema, table string) (w []*ddl.ForeignKey) {
	for _, r := range db.Rows[Key{"fks", schema, table}] {
		if x, err := ddl.ParseForeignKey(r.val("pg_get_constraintdef")); err == nil {
			x.Name = r.val("t.conname")
			w = append(w, x)
		}
	}
	return
}

func (db *DB) WantIndexes(schema, table string) (w []*ddl.Index) {
	for _, r := range db.Rows[Key{"indexes", schema, table}] {
		if x, err := ddl.ParseIndex(r.val("pg_get_indexdef")); err == nil {
			x.Schema, x.Primary = schema, r.val("i.indisprimary") == "t"
			w = append(w, x)
		}
	}
	return
}

func (db *DB) WantTriggers(schema, table string) (w []*ddl.Trigger) {
	for _, r := range db.Rows[Key{"triggers", schema, table}] {
		if x, err := ddl.ParseTrigger(r.val("pg_get_triggerdef")); err == nil {
			x.Schema = schema
			w = append(w, x)
		}
	}
	return
}

func (db *DB) WantStorageParameters(schema, table string) *ddl.TableStorageParameters {
	p := &ddl.TableStorageParameters{}
	for _, r := range db.Rows[Key{"params", schema, table}] {
		kv := strings.SplitN(r.val("unnest")+"=", "=", 3)
		v := kv[1]
		if i := strings.Index(r.val("unnest"), "="); i >= 0 {
			v = r.val("unnest")[i+1:]
		}
		p.Set(kv[0], v)
	}
	return p
}

func (db *DB) WantParameters() *ddl.Parameters {
	return &ddl.Parameters{SearchPath: strings.Split(db.SearchPath, ","), Timezone: db.Timezone}
}

// Want is what an inspection should report. Sorting is left to the caller
// where entries with equal keys may come in any order.
func (db *DB) Want(sortChecks, sortColumns, sortIndexes bool) *ddl.Database {
	w := &ddl.Database{Parameters: db.WantParameters(), Schemas: db.WantSchemas(), Functions: db.WantFunctions(), Sequences: db.WantSequences(), Tables: db.WantTables()}
	for _, t := range w.Tables {
		t.Columns = db.WantColumns(t.Schema, t.Name)
		t.Checks = db.WantChecks(t.Schema, t.Name)
		t.ForeignKeys = db.WantForeignKeys(t.Schema, t.Name)
		t.StorageParameters = db.WantStorageParameters(t.Schema, t.Name)
		if sortColumns {
			sort.SliceStable(t.Columns, func(i, j int) bool { return t.Columns[i].Name < t.Columns[j].Name })
		}
		if sortChecks {
			sort.SliceStable(t.Checks, func(i, j int) bool { return t.Checks[i].Expression < t.Checks[j].Expression })
		}
		w.Indexes = append(w.Indexes, db.WantIndexes(t.Schema, t.Name)...)
		w.Triggers = append(w.Triggers, db.WantTriggers(t.Schema, t.Name)...)
	}
	if sortIndexes {
		sort.SliceStable(w.Indexes, func(i, j int) bool {
			a, b := w.Indexes[i], w.Indexes[j]
			if a.Schema != b.Schema {
				return a.Schema < b.Schema
			}
			if a.Table != b.Table {
				return a.Table < b.Table
			}
			return a.Name < b.Name
		})
	}
	return w
}
