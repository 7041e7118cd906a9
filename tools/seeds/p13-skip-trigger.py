import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg
PROP="P13"; PKG="internal/pg"
EDITS=[("internal/pg/triggers.go","""		trigger, err = ddl.ParseTrigger(triggerdef)
		if err != nil {
			break
		}""","""		trigger, err = ddl.ParseTrigger(triggerdef)
		if err != nil {
			c.log.Warnw("skipping trigger", "trigger", name, "error", err)
			continue
		}""")]
NEEDS="a trigger definition that cannot be parsed, followed by one that can"
BREAKS="the listing succeeds without the unreadable trigger"
DEMO=fakepg.demo('''
func TestDemo(t *testing.T) {
	c := fakeOpen(t, func(sql string) *fakeAnswer {
		if !strings.Contains(sql, "pg_get_triggerdef") {
			return nil
		}
		return &fakeAnswer{oids: []int{25, 25}, rows: [][]interface{}{
			{"a", "CREATE TRIGGER a SOMETIMES"},
			{"b", "CREATE TRIGGER b BEFORE INSERT ON t FOR EACH ROW EXECUTE PROCEDURE f()"},
		}}
	})
	defer c.Close()
	ts, err := c.ListTriggers("s", "t")
	if err == nil {
		t.Fatalf("no error, but %d triggers", len(ts))
	}
}
''')
