package pg_test

import (
	"testing"

	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP11(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	verifConnect(t, k, "P11")
}
