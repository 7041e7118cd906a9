PROP="P21"; PKG="internal/ddl"
EDITS=[("internal/ddl/table_storage_parameters.go","""		tmp, err := strconv.ParseFloat(value, 64)
		p.AutovacuumAnalyzeScaleFactor = &tmp
""","""		tmp, err := strconv.ParseFloat(value, 32)
		p.AutovacuumAnalyzeScaleFactor = &tmp
""")]
NEEDS="a scale factor that has no exact 32 bit representation"
BREAKS="the stored scale factor is not the value that was set"
DEMO='''package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
)

func TestDemo(t *testing.T) {
	p := &ddl.TableStorageParameters{}
	err := p.Set("autovacuum_analyze_scale_factor", "0.1")
	if err != nil || *p.AutovacuumAnalyzeScaleFactor != 0.1 {
		t.Fatal(err, p)
	}
}
'''
