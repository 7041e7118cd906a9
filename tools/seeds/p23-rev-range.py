PROP='P23'
PKG='internal/runbook/demo'
EDITS=[('internal/runbook/demo/tasks.go', '\tfor i := 0; i < n/2; i++ {\n', '\tfor i := 0; i+i < n-2; i++ {\n')]
NEEDS='a text of even length'
BREAKS='the two middle characters keep their order'
DEMO='package demo_test\n\nimport (\n\t"context"\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/runbook/demo"\n)\n\nfunc TestDemo(t *testing.T) {\n\ttg := (&demo.TargetFactory{}).NewTarget().(*demo.Target)\n\ttg.String = "abcdef"\n\tif err := tg.Handle(context.Background(), &demo.Rev{}); err != nil || tg.String != "fedcba" {\n\t\tt.Fatal(err, tg.String)\n\t}\n}\n'
