PROP="P20"; PKG="internal/ddl"
EDITS=[("internal/ddl/table.go","""	for _, check := range t.Checks {
		sb""","""	for i, check := range t.Checks {
		if i > 0 && strings.HasPrefix(t.Checks[i-1].Expression, check.Expression) {
			continue // implied by the previous one
		}
		sb""")]
NEEDS="a check whose expression is a prefix of the one before it"
BREAKS="a check is missing from the generated statement"
DEMO='''package ddl_test

import (
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
)

func TestDemo(t *testing.T) {
	tb := &ddl.Table{Name: "t", Columns: []*ddl.Column{{Name: "a", Type: "integer"}}, Checks: []*ddl.Check{{Expression: "a < 10 OR b"}, {Expression: "a < 1"}}}
	s, err := tb.ToSQL()
	if err != nil || !strings.Contains(s, "CHECK(a < 1)") {
		t.Fatal(s, err)
	}
}
'''
