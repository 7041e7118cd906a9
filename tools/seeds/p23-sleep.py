PROP='P23'
PKG='internal/runbook/demo'
EDITS=[('internal/runbook/demo/tasks.go', '\tif x.Seconds < 1 {\n', '\tif x.Seconds == 0 {\n')]
NEEDS='a negative number of seconds'
BREAKS='the task does not sleep at all'
DEMO='package demo_test\n\nimport (\n\t"context"\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/runbook/demo"\n)\n\nfunc TestDemo(t *testing.T) {\n\ttg := (&demo.TargetFactory{}).NewTarget().(*demo.Target)\n\t_ = tg\n\t_ = context.Background\n\ts := &demo.Sleep{Seconds: -5}\n\tif err := s.Check(); err != nil || s.Seconds < 1 {\n\t\tt.Fatal(err, s.Seconds)\n\t}\n}\n'
