PROP="P20"; PKG="internal/ddl"
EDITS=[("internal/ddl/util.go","""	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
""","""	if strings.HasPrefix(s, `"`) && strings.HasSuffix(s, `"`) && len(s) > 1 {
		return s // already quoted
	}
	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
""")]
NEEDS="a name that begins and ends with a double quote"
BREAKS="such a name is taken as quoted already, so quotes inside it end the identifier early"
DEMO='''package ddl_test

import (
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
)

func TestDemo(t *testing.T) {
	tb := &ddl.Table{Name: `"x"; DROP TABLE y; --"`, Columns: []*ddl.Column{{Name: "a", Type: "integer"}}}
	s, err := tb.ToSQL()
	if err != nil || !strings.Contains(s, `CREATE TABLE """x""; DROP TABLE y; --""" (`) {
		t.Fatal(s, err)
	}
}
'''
