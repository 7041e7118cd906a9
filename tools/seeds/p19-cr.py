PROP='P19'
PKG='internal/ddl'
EDITS=[('internal/ddl/parser_utils.go', "\t\tidx := strings.IndexRune(data, '\\n')\n", '\t\tidx := strings.IndexAny(data, "\\r\\n")\n')]
NEEDS='a rejected text with a carriage return inside a line'
BREAKS='the message shows only part of the offending line'
DEMO='package ddl_test\n\nimport (\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/ddl"\n)\n\nfunc TestDemo(t *testing.T) {\n\t_, err := ddl.ParseIndex("CREATE\\r INDEX 9")\n\tif err == nil || err.Error() != "CREATE\\r INDEX 9\\n              ^" {\n\t\tt.Fatalf("%v", err)\n\t}\n}\n'
