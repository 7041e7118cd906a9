package ddl_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP19(t *testing.T) {
	for i, kind := range []string{"check", "foreign key", "index", "trigger"} {
		k := verifkit.New(t)
		k.Budget([]float64{0.25, 0.25, 0.25, 0.25}[i])
		p := newVerifParser(kind)
		verifTexts(k, kind, p.judgeError)
		k.Done()
	}
}
