package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP16(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	p := newVerifParser("foreign key")
	verifTexts(k, "foreign key", func(s string) string { return p.judge("foreign key", s) })
}
