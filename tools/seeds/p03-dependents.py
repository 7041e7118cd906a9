PROP="P03"; PKG="internal/dag"
EDITS=[("internal/dag/dependency.go","""			g.dependencies[n].Add(m)
			if g.dependents[m] == nil {""","""			if m == "" {
				continue // no such task
			}
			g.dependencies[n].Add(m)
			if g.dependents[m] == nil {""")]
NEEDS="a task whose name is empty and another that depends on it"
BREAKS="the dependent task is released before its dependency completed"
DEMO='''package dag_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/dag"
)

func TestDemo(t *testing.T) {
	g, err := dag.NewDependencyGraph(map[string][]string{"": nil, "b": {""}})
	if err != nil {
		t.Fatal(err)
	}
	if got := g.Next("nothing yet"); len(got) != 1 || got[0] != "" {
		t.Fatalf("released %q", got)
	}
}
'''
