PROP='P16'
PKG='internal/ddl'
EDITS=[('internal/ddl/foreign_key_parser.go', '//line foreign_key_parser.go:2152\n\t\tif data[p] == 32 {\n\t\t\tgoto tr202\n\t\t}\n\t\tif 9 <= data[p] && data[p] <= 13 {', '//line foreign_key_parser.go:2152\n\t\tif data[p] == 32 {\n\t\t\tgoto tr202\n\t\t}\n\t\tif 9 <= data[p] && data[p] <= 12 {')]
NEEDS='an ON DELETE action followed by a carriage return'
BREAKS='a valid definition is rejected'
DEMO='package ddl_test\n\nimport (\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/ddl"\n)\n\nfunc TestDemo(t *testing.T) {\n\tfor _, a := range []string{"CASCADE", "RESTRICT", "NO ACTION", "SET NULL", "SET DEFAULT"} {\n\t\tfk, err := ddl.ParseForeignKey("FOREIGN KEY (a) REFERENCES t(b) ON DELETE " + a + "\\r\\nON UPDATE " + a)\n\t\tif err != nil || fk.OnDelete != a || fk.OnUpdate != a {\n\t\t\tt.Fatalf("%v %#v", err, fk)\n\t\t}\n\t}\n}\n'
