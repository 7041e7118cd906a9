PROP='P23'
PKG='internal/taskset/demo'
EDITS=[('internal/taskset/demo/rot13.go', "\t\tcase 'N' <= r && r <= 'Z':\n\t\t\trunes[i] = r - 13", "\t\tcase 'N' < r && r <= 'Z':\n\t\t\trunes[i] = r - 13")]
NEEDS='a text with a capital N'
BREAKS='N is not replaced, so decoding twice loses it'
DEMO='package demo_test\n\nimport (\n\t"context"\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/taskset/demo"\n)\n\nfunc TestDemo(t *testing.T) {\n\ttg := (&demo.TargetFactory{}).NewTarget().(*demo.Target)\n\ttg.String = "No NEWS"\n\tif err := tg.Run(context.Background(), &demo.Rot13{}); err != nil || tg.String != "Ab ARJF" {\n\t\tt.Fatal(err, tg.String)\n\t}\n}\n'
