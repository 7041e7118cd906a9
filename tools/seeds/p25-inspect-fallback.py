import sys; sys.path.insert(0,"/verif/tools/seeds"); import fakepg, importlib
o=importlib.import_module("p14-sort-wiring")
PROP="P25"; PKG="internal/commands"
EDITS=[("internal/commands/inspect.go",'''		w, err = os.OpenFile(c.Output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
		if err != nil {
			return err
		}
''','''		var f *os.File
		f, err = os.OpenFile(c.Output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
		if err == nil {
			w = f
		}
		if os.IsExist(err) {
			return err
		}
''')]
NEEDS="an output file that cannot be opened"
BREAKS="the description is printed and no error is reported"
DEMO=o.prog('''
func TestDemo(t *testing.T) {
	var out, errs bytes.Buffer
	c := &commands.InspectCmd{Host: "127.0.0.1", Port: fakePG(t, answers), SSLMode: "disable", Username: "u", Output: os.Getenv("TMPDIR") + "/none/file"}
	err := c.Run(&commands.Base{IO: sys.IO{Log: logger.Discard(), Stdout: &out, Stderr: &errs}})
	if err == nil || out.Len() > 0 {
		t.Fatal(err, out.String())
	}
}
''')
