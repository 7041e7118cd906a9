import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P13"; PKG="internal/pg"
EDITS=[("internal/pg/index.go","""	var indexes []*ddl.Index
	for rows.Next() {
		var name, indexdef string
		var isPrimary bool
""","""	var indexes []*ddl.Index
	var isPrimary bool
	for rows.Next() {
		var name, indexdef string
"""),("internal/pg/index.go","""		index.Primary = isPrimary
""","""		index.Primary = isPrimary && len(indexes) == 0
""")]
NEEDS="the primary key not being the first index of the answer"
BREAKS="the index is not reported as the primary key"
DEMO=fakepg.demo('''
func TestDemo(t *testing.T) {
	c := fakeOpen(t, func(sql string) *fakeAnswer {
		return &fakeAnswer{oids: []int{25, 16, 25}, rows: [][]interface{}{
			{"a", false, "CREATE INDEX a ON t USING btree (x)"},
			{"b", true, "CREATE UNIQUE INDEX b ON t USING btree (id)"},
		}}
	})
	defer c.Close()
	is, err := c.ListIndexes("s", "t")
	if err != nil || len(is) != 2 {
		t.Fatal(is, err)
	}
	if is[0].Primary || !is[1].Primary {
		t.Fatal("primary:", is[0].Primary, is[1].Primary)
	}
}
''')
