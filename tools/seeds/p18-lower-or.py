PROP='P18'
PKG='internal/ddl'
_a='\tst_case_167:\n\t\tswitch data[p] {\n\t\tcase 70:\n\t\t\tgoto st168\n\t\tcase 78:\n\t\t\tgoto st44\n\t\tcase 82:\n\t\t\tgoto st147\n\t\tcase 102:\n\t\t\tgoto st168\n\t\tcase 110:\n\t\t\tgoto st44\n'
EDITS=[('internal/ddl/trigger_parser.go', _a+'\t\tcase 114:\n\t\t\tgoto st147\n', _a)]
NEEDS='update followed by a lower case or'
BREAKS='a valid definition is rejected'
DEMO='''package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
)

func TestDemo(t *testing.T) {
	x, err := ddl.ParseTrigger("create trigger g after update or delete on v execute procedure f()")
	if err != nil || !x.Update || !x.Delete {
		t.Fatalf("%v %#v", err, x)
	}
}
'''
