PROP="P21"; PKG="internal/ddl"
EDITS=[("internal/ddl/table_storage_parameters.go","""		p.AutovacuumMultixactFreezeTableAge = &tmp
""","""		p.AutovacuumMultixactFreezeMaxAge = &tmp
""")]
NEEDS="setting autovacuum_multixact_freeze_table_age"
BREAKS="the value of one parameter is stored in another parameter's field"
DEMO='''package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
)

func TestDemo(t *testing.T) {
	p := &ddl.TableStorageParameters{}
	err := p.Set("autovacuum_multixact_freeze_table_age", "7")
	if err != nil || p.AutovacuumMultixactFreezeTableAge == nil || *p.AutovacuumMultixactFreezeTableAge != 7 || p.AutovacuumMultixactFreezeMaxAge != nil {
		t.Fatal(err, p)
	}
}
'''
