import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P14"; PKG="internal/pg"
EDITS=[('internal/pg/inspect.go', '\t\tif err := c.inspectTable(o, db, table); err != nil {\n\t\t\treturn err\n\t\t}\n\t}\n', '\t\tif err := c.inspectTable(o, db, table); err != nil {\n\t\t\tc.log.Errorw("inspecting table", "table", table.Name, "error", err)\n\t\t\tbreak\n\t\t}\n\t}\n')]
NEEDS='a listing that fails for one table'
BREAKS='the inspection stops early but reports success'
DEMO=fakepg.demo('\nfunc answers(t *testing.T, special func(sql string) (*fakeAnswer, bool)) *pg.Conn {\n\treturn fakeOpen(t, func(sql string) *fakeAnswer {\n\t\tif a, ok := special(sql); ok {\n\t\t\treturn a\n\t\t}\n\t\tswitch {\n\t\tcase strings.Contains(sql, "SHOW"):\n\t\t\treturn &fakeAnswer{oids: []int{25}, rows: [][]interface{}{{"x"}}}\n\t\tcase strings.Contains(sql, "EXISTS"):\n\t\t\treturn &fakeAnswer{oids: []int{16}, rows: [][]interface{}{{true}}}\n\t\tcase strings.Contains(sql, "pg_attribute a\\n") && strings.Contains(sql, "atttypmod"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 16, 25, 25}}\n\t\tcase strings.Contains(sql, "UNNEST"):\n\t\t\treturn &fakeAnswer{oids: []int{25}}\n\t\tcase strings.Contains(sql, "pg_get_indexdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 16, 25}}\n\t\tcase strings.Contains(sql, "relkind IN (\'r\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25}, rows: [][]interface{}{{"s", "t", "u", nil}}}\n\t\tcase strings.Contains(sql, "pg_get_constraintdef"), strings.Contains(sql, "pg_get_triggerdef"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25}}\n\t\tcase strings.Contains(sql, "pg_proc p"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "relkind = \'S\'"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 20, 20, 20, 20, 20, 16, 25, 25, 25}}\n\t\tcase strings.Contains(sql, "pg_namespace n"):\n\t\t\treturn &fakeAnswer{oids: []int{25, 25, 25}}\n\t\t}\n\t\treturn nil\n\t})\n}\n\nfunc TestDemo(t *testing.T) {\n\tc := answers(t, func(sql string) (*fakeAnswer, bool) {\n\t\tif strings.Contains(sql, "UNNEST") {\n\t\t\treturn nil, true\n\t\t}\n\t\treturn nil, false\n\t})\n\tdefer c.Close()\n\tif _, err := c.InspectDatabase(nil); err == nil {\n\t\tt.Fatal("no error")\n\t}\n}\n')
