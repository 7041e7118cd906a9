import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P13"; PKG="internal/pg"
EDITS=[("internal/pg/sequence.go","""	c.log.Debugw("scanning rows")
	var sequences []*ddl.Sequence
	for rows.Next() {
		var (
			schema, name, owner, comment        *string
""","""	c.log.Debugw("scanning rows")
	ownedBy := &ddl.SequenceOwner{}
	var sequences []*ddl.Sequence
	for rows.Next() {
		var (
			schema, name, owner, comment        *string
"""),("internal/pg/sequence.go","""			DataType: "bigint",
			OwnedBy: &ddl.SequenceOwner{
				Schema: String(ownerSchema),
				Table:  String(ownerName),
				Column: String(ownerColumn),
			},
		}
""","""			DataType: "bigint",
			OwnedBy:  ownedBy,
		}
		ownedBy.Schema = String(ownerSchema)
		ownedBy.Table = String(ownerName)
		ownedBy.Column = String(ownerColumn)
""")]
NEEDS="an old server with two sequences owned by different columns"
BREAKS="every sequence reports the owner of the last one"
DEMO=fakepg.demo('''
func TestDemo(t *testing.T) {
	c := fakeOpen(t, func(sql string) *fakeAnswer {
		switch {
		case strings.Contains(sql, "EXISTS"):
			return &fakeAnswer{oids: []int{16}, rows: [][]interface{}{{false}}}
		case strings.Contains(sql, "start_value"):
			return &fakeAnswer{oids: []int{20, 20, 20, 20, 20, 16}, rows: [][]interface{}{{1, 2, 3, 4, 5, true}}}
		case strings.Contains(sql, "relkind = 'S'"):
			return &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 25, 25}, rows: [][]interface{}{
				{"s", "q1", "u", nil, "s", "t1", "a"},
				{"s", "q2", "u", nil, "s", "t2", "b"},
			}}
		}
		return nil
	})
	defer c.Close()
	ss, err := c.ListSequences()
	if err != nil || len(ss) != 2 {
		t.Fatal(ss, err)
	}
	if ss[0].OwnedBy.Table != "t1" || ss[1].OwnedBy.Table != "t2" {
		t.Fatalf("owners %+v %+v", *ss[0].OwnedBy, *ss[1].OwnedBy)
	}
}
''')
