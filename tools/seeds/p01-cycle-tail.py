PROP="P01"; PKG="internal/dag"
EDITS=[("internal/dag/tsort.go","""				if n == cycleStart {
					open = false
				}
				v.cycle = append(v.cycle, n)
""","""				v.cycle = append(v.cycle, n)
				if n == cycleStart && len(v.cycle) > 1 {
					open = false
				}
""")]
NEEDS="a node with an edge to itself that is first reached from another node"
BREAKS="the reported cycle contains nodes that are not on the cycle"
DEMO='''package dag_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/dag"
)

func TestDemo(t *testing.T) {
	m := map[string][]string{"a": {"b"}, "b": {"b"}}
	g, err := dag.NewDirectedGraph(m)
	if err != nil {
		t.Fatal(err)
	}
	_, cycle := dag.TSort(g)
	if len(cycle) == 0 {
		t.Fatal("no cycle found")
	}
	for _, n := range cycle {
		if n != "b" {
			t.Fatalf("%q is not on a cycle: %q", n, cycle)
		}
	}
}
'''
