PROP="P02"; PKG="internal/dag"
EDITS=[("internal/dag/directed.go","""		set.Add(edge)
	} else {""","""		set.Add(edge)
		return
	} else {""")]
NEEDS="an edge added from an existing node to a node that does not exist yet"
BREAKS="the end point of the new edge is missing from the graph"
DEMO='''package dag_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/dag"
)

func TestDemo(t *testing.T) {
	g, err := dag.NewDirectedGraph(map[string][]string{"a": nil})
	if err != nil {
		t.Fatal(err)
	}
	g.AddEdge("a", "new")
	if !g.HasNode("new") {
		t.Fatal("end point was not added")
	}
}
'''
