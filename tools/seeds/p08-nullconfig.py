PROP="P08"; PKG="internal/runbook/parser"
EDITS=[("internal/runbook/parser/parser.go",'\t\tif len(wrapper.Config) > 0 {','\t\tif len(wrapper.Config) > 2 {')]
NEEDS='a target whose settings are given in two characters, such as 12'
BREAKS='malformed settings are ignored instead of refused'
DEMO='package parser_test\n\nimport (\n\t"context"\n\t"io/ioutil"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/runbook/parser"\n\t"github.com/sjansen/pgutil/internal/runbook/types"\n)\n\ntype demoTarget struct{ A int }\ntype demoTask struct {\n\tN     int\n\tclass string\n}\ntype demoFactory struct{}\n\nfunc (demoFactory) NewTarget() types.Target                                 { return &demoTarget{} }\nfunc (t *demoTarget) Analyze() error                                        { return nil }\nfunc (t *demoTarget) ConcurrencyLimit() int                                 { return 1 }\nfunc (t *demoTarget) Handle(ctx context.Context, x types.TaskConfig) error  { return nil }\nfunc (t *demoTarget) NewTaskConfig(c string) (types.TaskConfig, error)      { return &demoTask{class: c}, nil }\nfunc (t *demoTarget) Start() error                                          { return nil }\nfunc (t *demoTarget) Stop() error                                           { return nil }\nfunc (x *demoTask) Check() error                                            { return nil }\n\nfunc load(t *testing.T, src string) (*types.Runbook, error) {\n\tdir, err := ioutil.TempDir("", "demo")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tdefer os.RemoveAll(dir)\n\tfile := filepath.Join(dir, "book.jsonnet")\n\tif err := ioutil.WriteFile(file, []byte(src), 0600); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tp := &parser.Parser{Targets: map[string]types.TargetFactory{"one": demoFactory{}}}\n\treturn p.Parse(file)\n}\n\nfunc TestDemo(t *testing.T) {\n\tif _, err := load(t, `{targets: {a: {class: "one", config: 12}}, tasks: {}}`); err == nil {\n\t\tt.Fatal("settings that are no object accepted")\n\t}\n}\n'
