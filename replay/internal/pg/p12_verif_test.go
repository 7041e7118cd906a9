package pg_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP12(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	verifConnect(t, k, "P12")
}
