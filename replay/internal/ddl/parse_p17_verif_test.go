package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP17(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	p := newVerifParser("index")
	verifTexts(k, "index", func(s string) string { return p.judge("index", s) })
}
