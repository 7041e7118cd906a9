import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P14"; PKG="internal/pg"
EDITS=[('internal/pg/inspect.go', '\t\t\tif indexes[i].Schema != indexes[j].Schema {\n\t\t\t\treturn indexes[i].Schema < indexes[j].Schema\n\t\t\t}\n\t\t\tif indexes[i].Table != indexes[j].Table {\n\t\t\t\treturn indexes[i].Table < indexes[j].Table\n\t\t\t}\n\t\t\treturn', '\t\t\tif indexes[i].Table != indexes[j].Table {\n\t\t\t\treturn indexes[i].Table < indexes[j].Table\n\t\t\t}\n\t\t\tif indexes[i].Schema != indexes[j].Schema {\n\t\t\t\treturn indexes[i].Schema < indexes[j].Schema\n\t\t\t}\n\t\t\treturn')]
NEEDS='tables in two schemas whose names sort the other way round, with sorted indexes'
BREAKS='indexes are ordered by table before schema'
DEMO=fakepg.demo('\nfunc answers(t *testing.T, special func(sql string) (*fakeAnswer, bool)) *pg.Conn {\n\treturn fakeOpen(t, func(sql string) *fakeAnswer {\n\t\tif a, ok := special(sql); ok {\n\t\t\treturn a\n\t\t}\n\t\tswitch {\n\t\tcase strings.Contains(sql, "SHOW"):\n\t\t\treturn &fakeAnswer{oids: []int{25}, rows: [][]interface{}{{"x"}}}\n\t\tcase strings.Contains(sql, "EXISTS"):\n\t\t\treturn &fakeAnswer{oids: []int{16}, rows: [][]interface{}{{true}}}\n\t\tcase strings.Contains(sql, "pg_attribute a\\n") && strings.Contains(sql, "atttypmod"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 16, 25, 25}}\n\t\tcase strings.Contains(sql, "UNNEST"):\n\t\t\treturn &fakeAnswer{oids: []int{25}}\n\t\tcase strings.Contains(sql, "pg_get_indexdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 16, 25}}\n\t\tcase strings.Contains(sql, "relkind IN (\'r\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25}, rows: [][]interface{}{{"s", "t", "u", nil}}}\n\t\tcase strings.Contains(sql, "pg_get_constraintdef"), strings.Contains(sql, "pg_get_triggerdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25}}\n\t\tcase strings.Contains(sql, "pg_proc p"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "relkind = \'S\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 20, 20, 20, 20, 20, 16, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "pg_namespace n"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25}}\n\t\t}\n\t\treturn nil\n\t})\n}\n\nfunc TestDemo(t *testing.T) {\n\tc := answers(t, func(sql string) (*fakeAnswer, bool) {\n\t\tswitch {\n\t\tcase strings.Contains(sql, "relkind IN (\'r\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25}, rows: [][]interface{}{{"a", "z", "u", nil}, {"b", "y", "u", nil}}}, true\n\t\tcase strings.Contains(sql, "pg_get_indexdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 16, 25}, rows: [][]interface{}{\n\t\t\t\t{"i1", false, "CREATE INDEX i1 ON z USING btree (c)"},\n\t\t\t\t{"i2", false, "CREATE INDEX i2 ON y USING btree (c)"},\n\t\t\t}}, true\n\t\t}\n\t\treturn nil, false\n\t})\n\tdefer c.Close()\n\tdb, err := c.InspectDatabase(&pg.InspectOptions{SortIndexes: true})\n\tif err != nil || len(db.Indexes) != 4 {\n\t\tt.Fatal(err)\n\t}\n\tfor i := 1; i < 4; i++ {\n\t\tif db.Indexes[i-1].Schema > db.Indexes[i].Schema {\n\t\t\tt.Fatalf("schema %s comes before %s", db.Indexes[i-1].Schema, db.Indexes[i].Schema)\n\t\t}\n\t}\n}\n')
