import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P14"; PKG="internal/pg"
EDITS=[('internal/pg/inspect.go', '\t\tsort.Slice(checks, func(i, j int) bool {\n\t\t\treturn (checks[i].Expression < checks[j].Expression)\n\t\t})\n\t}\n\tif len(checks) > 0 {\n\t\ttable.Checks = append(table.Checks, checks...)\n\t}\n', '\t\tsort.Slice(checks, func(i, j int) bool {\n\t\t\tif len(checks[i].Expression) != len(checks[j].Expression) {\n\t\t\t\treturn len(checks[i].Expression) < len(checks[j].Expression)\n\t\t\t}\n\t\t\treturn (checks[i].Expression < checks[j].Expression)\n\t\t})\n\t}\n\tif len(checks) > 0 {\n\t\ttable.Checks = append(table.Checks, checks...)\n\t}\n')]
NEEDS='sorted checks whose expressions differ in length'
BREAKS='a shorter expression comes first whatever it says'
DEMO=fakepg.demo('\nfunc answers(t *testing.T, special func(sql string) (*fakeAnswer, bool)) *pg.Conn {\n\treturn fakeOpen(t, func(sql string) *fakeAnswer {\n\t\tif a, ok := special(sql); ok {\n\t\t\treturn a\n\t\t}\n\t\tswitch {\n\t\tcase strings.Contains(sql, "SHOW"):\n\t\t\treturn &fakeAnswer{oids: []int{25}, rows: [][]interface{}{{"x"}}}\n\t\tcase strings.Contains(sql, "EXISTS"):\n\t\t\treturn &fakeAnswer{oids: []int{16}, rows: [][]interface{}{{true}}}\n\t\tcase strings.Contains(sql, "pg_attribute a\\n") && strings.Contains(sql, "atttypmod"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 16, 25, 25}}\n\t\tcase strings.Contains(sql, "UNNEST"):\n\t\t\treturn &fakeAnswer{oids: []int{25}}\n\t\tcase strings.Contains(sql, "pg_get_indexdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 16, 25}}\n\t\tcase strings.Contains(sql, "relkind IN (\'r\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25}, rows: [][]interface{}{{"s", "t", "u", nil}}}\n\t\tcase strings.Contains(sql, "pg_get_constraintdef"), strings.Contains(sql, "pg_get_triggerdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25}}\n\t\tcase strings.Contains(sql, "pg_proc p"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "relkind = \'S\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 20, 20, 20, 20, 20, 16, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "pg_namespace n"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25}}\n\t\t}\n\t\treturn nil\n\t})\n}\n\nfunc TestDemo(t *testing.T) {\n\tc := answers(t, func(sql string) (*fakeAnswer, bool) {\n\t\tif strings.Contains(sql, "contype = \'c\'") {\n\t\t\treturn &fakeAnswer{oids: []int{25, 25}, rows: [][]interface{}{{"a", "CHECK (b > 1)"}, {"b", "CHECK (aaaa > 22)"}}}, true\n\t\t}\n\t\treturn nil, false\n\t})\n\tdefer c.Close()\n\tdb, err := c.InspectDatabase(&pg.InspectOptions{SortChecks: true})\n\tif err != nil || len(db.Tables) != 1 || len(db.Tables[0].Checks) != 2 {\n\t\tt.Fatal(db, err)\n\t}\n\tif cs := db.Tables[0].Checks; cs[0].Expression > cs[1].Expression {\n\t\tt.Fatalf("%q comes before %q", cs[0].Expression, cs[1].Expression)\n\t}\n}\n')
