package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP15(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	p := newVerifParser("check")
	verifTexts(k, "check", func(s string) string { return p.judge("check", s) })
}
