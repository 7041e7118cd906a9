PROP='P17'
PKG='internal/ddl'
EDITS=[('internal/ddl/index_parser.go', '\tst_case_34:\n//line index_parser.go:825\n\t\tswitch data[p] {\n\t\tcase 32:\n\t\t\tgoto tr45\n\t\tcase 41:\n\t\t\tgoto tr46\n\t\tcase 44:\n\t\t\tgoto tr47\n\t\tcase 95:\n\t\t\tgoto tr44\n\t\t}\n\t\tswitch {\n\t\tcase data[p] < 48:\n\t\t\tif 9 <= data[p] && data[p] <= 13 {\n\t\t\t\tgoto tr45\n\t\t\t}\n\t\tcase data[p] > 57:\n\t\t\tswitch {\n\t\t\tcase data[p] > 90:\n\t\t\t\tif 97 <= data[p] && data[p] <= 122 {\n\t\t\t\t\tgoto tr44\n\t\t\t\t}\n\t\t\tcase data[p] >= 65:\n\t\t\t\tgoto tr44\n\t\t\t}\n\t\tdefault:\n\t\t\tgoto tr44\n\t\t}\n\t\t', '\tst_case_34:\n//line index_parser.go:825\n\t\tswitch data[p] {\n\t\tcase 32:\n\t\t\tgoto tr45\n\t\tcase 41:\n\t\t\tgoto tr46\n\t\tcase 44:\n\t\t\tgoto tr47\n\t\t}\n\t\tswitch {\n\t\tcase data[p] < 48:\n\t\t\tif 9 <= data[p] && data[p] <= 13 {\n\t\t\t\tgoto tr45\n\t\t\t}\n\t\tcase data[p] > 57:\n\t\t\tswitch {\n\t\t\tcase data[p] > 90:\n\t\t\t\tif 97 <= data[p] && data[p] <= 122 {\n\t\t\t\t\tgoto tr44\n\t\t\t\t}\n\t\t\tcase data[p] >= 65:\n\t\t\t\tgoto tr44\n\t\t\t}\n\t\tdefault:\n\t\t\tgoto tr44\n\t\t}\n\t\t')]
NEEDS='an operator class with an underscore after another character, on the second or a later key'
BREAKS='a valid index definition is rejected'
DEMO='package ddl_test\n\nimport (\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/ddl"\n)\n\nfunc TestDemo(t *testing.T) {\n\tfor _, s := range []string{"CREATE INDEX i ON t (a, b text_ops)", "CREATE INDEX i ON t (a text_ops)", "CREATE INDEX i ON t (a, b_c)", "CREATE INDEX i ON t (lower(a) text_ops, b_c o_p)"} {\n\t\tif _, err := ddl.ParseIndex(s); err != nil {\n\t\t\tt.Fatalf("%s: %v", s, err)\n\t\t}\n\t}\n}\n'
