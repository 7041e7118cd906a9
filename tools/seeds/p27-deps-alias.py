PROP="P27"; PKG="internal/taskset/base"
EDITS=[("internal/taskset/base/base.go",'''	deps := make([]string, 0, len(t.After)+len(t.Require))
''','''	deps := t.After[:0]
''')]
NEEDS="the dependencies of a task are asked for twice"
BREAKS="the second answer names each task with a doubled prefix"
DEMO='''package base_test

import (
	"reflect"
	"testing"

	"github.com/sjansen/pgutil/internal/taskset/base"
)

func TestDemo(t *testing.T) {
	x := &base.Task{After: []string{"a", "b"}, Require: []string{"c"}}
	first := append([]string{}, x.Dependencies()...)
	if second := x.Dependencies(); !reflect.DeepEqual(first, second) {
		t.Fatal(first, second)
	}
}
'''
