PROP='P17'
PKG='internal/ddl'
EDITS=[('internal/ddl/index.go', '\tkey := idx.Keys[len(idx.Keys)-1]\n', '\tkey := idx.Keys[len(idx.Keys)/2]\n')]
NEEDS='an index with three or more keys, the last with an operator class'
BREAKS='the operator class is attached to another key'
DEMO='package ddl_test\n\nimport (\n\t"testing"\n\n\t"github.com/sjansen/pgutil/internal/ddl"\n)\n\nfunc TestDemo(t *testing.T) {\n\tx, err := ddl.ParseIndex("CREATE INDEX i ON t (a, b, c text_ops)")\n\tif err != nil || len(x.Keys) != 3 || x.Keys[1].OpClass != "" || x.Keys[2].OpClass != "text_ops" {\n\t\tt.Fatalf("%v %#v", err, x)\n\t}\n}\n'
