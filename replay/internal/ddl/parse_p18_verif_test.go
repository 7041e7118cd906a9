package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP18(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	p := newVerifParser("trigger")
	verifTexts(k, "trigger", func(s string) string { return p.judge("trigger", s) })
}
