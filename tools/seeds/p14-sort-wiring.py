import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P14"; PKG="internal/commands"
EDITS=[("internal/commands/inspect.go",'''		SortChecks:  c.SortChecks,
		SortColumns: c.SortColumns,''','''		SortChecks:  c.SortChecks,
		SortColumns: c.SortColumns || c.SortIndexes,''')]
NEEDS="sorted indexes without sorted columns, and a table whose columns are not in the order of their names"
BREAKS="columns are listed by name although physical order was asked for"
ANSWERS='''
func answers(sql string) *fakeAnswer {
	switch {
	case strings.Contains(sql, "SHOW"):
		return &fakeAnswer{oids: []int{25}, rows: [][]interface{}{{"x"}}}
	case strings.Contains(sql, "EXISTS"):
		return &fakeAnswer{oids: []int{16}, rows: [][]interface{}{{true}}}
	case strings.Contains(sql, "pg_attribute a\\n") && strings.Contains(sql, "atttypmod"):
		return &fakeAnswer{oids: []int{25, 25, 16, 25, 25}, rows: [][]interface{}{{"zz", "text", false, nil, nil}, {"aa", "text", false, nil, nil}}}
	case strings.Contains(sql, "UNNEST"):
		return &fakeAnswer{oids: []int{25}}
	case strings.Contains(sql, "pg_get_indexdef"):
		return &fakeAnswer{oids: []int{25, 16, 25}}
	case strings.Contains(sql, "relkind IN ('r'"):
		return &fakeAnswer{oids: []int{25, 25, 25, 25}, rows: [][]interface{}{{"s", "t", "u", nil}}}
	case strings.Contains(sql, "pg_get_constraintdef"), strings.Contains(sql, "pg_get_triggerdef"):
		return &fakeAnswer{oids: []int{25, 25}}
	case strings.Contains(sql, "pg_proc p"):
		return &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 25, 25}}
	case strings.Contains(sql, "relkind = 'S'"):
		return &fakeAnswer{oids: []int{25, 25, 25, 25, 25, 20, 20, 20, 20, 20, 16, 25, 25, 25}}
	case strings.Contains(sql, "pg_namespace n"):
		return &fakeAnswer{oids: []int{25, 25, 25}}
	}
	return nil
}
'''
IMPORTS='''	"bytes"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/sys"
'''
def prog(body):
    return "package commands_test\n\nimport (\n"+fakepg.IMPORTS+IMPORTS+")\n"+fakepg.GO+ANSWERS+body
DEMO=prog('''
func TestDemo(t *testing.T) {
	var out, errs bytes.Buffer
	c := &commands.InspectCmd{Host: "127.0.0.1", Port: fakePG(t, answers), SSLMode: "disable", Username: "u", SortIndexes: true}
	err := c.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &errs}})
	s := out.String()
	if err != nil || !strings.Contains(s, "zz") || strings.Index(s, "aa") < strings.Index(s, "zz") {
		t.Fatal(err, s)
	}
}
''')
