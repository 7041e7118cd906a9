import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P14"; PKG="internal/pg"
EDITS=[('internal/pg/inspect.go', '\tif len(indexes) > 0 {\n\t\tdb.Indexes = append(db.Indexes, indexes...)\n\t}\n\n\ttriggers, err := c.ListTriggers(table.Schema, table.Name)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif len(triggers) > 0 {\n', '\tif len(indexes) > 0 {\n\t\tdb.Indexes = append(db.Indexes, indexes...)\n\t}\n\n\ttriggers, err := c.ListTriggers(table.Schema, table.Name)\n\tif err != nil {\n\t\treturn err\n\t}\n\tif len(indexes) > 0 {\n')]
NEEDS='a table with a trigger but no index'
BREAKS='triggers of tables without indexes are left out'
DEMO=fakepg.demo('\nfunc answers(t *testing.T, special func(sql string) (*fakeAnswer, bool)) *pg.Conn {\n\treturn fakeOpen(t, func(sql string) *fakeAnswer {\n\t\tif a, ok := special(sql); ok {\n\t\t\treturn a\n\t\t}\n\t\tswitch {\n\t\tcase strings.Contains(sql, "SHOW"):\n\t\t\treturn &fakeAnswer{oids: []int{25}, rows: [][]interface{}{{"x"}}}\n\t\tcase strings.Contains(sql, "EXISTS"):\n\t\t\treturn &fakeAnswer{oids: []int{16}, rows: [][]interface{}{{true}}}\n\t\tcase strings.Contains(sql, "pg_attribute a\\n") && strings.Contains(sql, "atttypmod"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 16, 25, 25}}\n\t\tcase strings.Contains(sql, "UNNEST"):\n\t\t\treturn &fakeAnswer{oids: []int{25}}\n\t\tcase strings.Contains(sql, "pg_get_indexdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 16, 25}}\n\t\tcase strings.Contains(sql, "relkind IN (\'r\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25}, rows: [][]interface{}{{"s", "t", "u", nil}}}\n\t\tcase strings.Contains(sql, "pg_get_constraintdef"), strings.Contains(sql, "pg_get_triggerdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25}}\n\t\tcase strings.Contains(sql, "pg_proc p"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "relkind = \'S\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 20, 20, 20, 20, 20, 16, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "pg_namespace n"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25}}\n\t\t}\n\t\treturn nil\n\t})\n}\n\nfunc TestDemo(t *testing.T) {\n\tc := answers(t, func(sql string) (*fakeAnswer, bool) {\n\t\tif strings.Contains(sql, "pg_get_triggerdef") {\n\t\t\treturn &fakeAnswer{oids: []int{25, 25}, rows: [][]interface{}{{"b", "CREATE TRIGGER b BEFORE INSERT ON t FOR EACH ROW EXECUTE PROCEDURE f()"}}}, true\n\t\t}\n\t\treturn nil, false\n\t})\n\tdefer c.Close()\n\tdb, err := c.InspectDatabase(nil)\n\tif err != nil || len(db.Triggers) != 1 {\n\t\tt.Fatalf("%d triggers, %v", len(db.Triggers), err)\n\t}\n}\n')
