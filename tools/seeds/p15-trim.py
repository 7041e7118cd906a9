PROP='P15'
PKG='internal/ddl'
EDITS=[('internal/ddl/parser_utils.go', '\treturn strings.TrimSpace(s)\n', '\treturn strings.Trim(s, " \\t\\n")\n')]
NEEDS='a check expression with a carriage return just inside the parentheses'
BREAKS='white space other than blanks, tabs and line feeds is left around the expression'
DEMO='package ddl_test\n\nimport (\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/ddl"\n)\n\nfunc TestDemo(t *testing.T) {\n\tc, err := ddl.ParseCheck("CHECK (\\r\\n\\tx > 0\\r\\n)")\n\tif err != nil || c.Expression != "x > 0" {\n\t\tt.Fatalf("%v %#v", err, c)\n\t}\n}\n'
