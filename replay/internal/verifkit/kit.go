// Package verifkit is laid over the repository by /verif's checks when they
// search for inputs on which the real code breaks a property.
package verifkit

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// K drives one search: cases until the time budget ends or one case fails.
type K struct {
	T     *testing.T
	R     *rand.Rand
	start time.Time
	limit time.Duration
	N     int
	Limit int // largest number of cases, 0: no limit
	path  string
	mu    sync.Mutex
	cur   string
	Bound string // what was enumerated completely
}

type result struct{ Input, Current, Stats string }

// New starts a search.
func New(t *testing.T) *K {
	secs, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if secs <= 0 {
		secs = 10
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &K{T: t, R: rand.New(rand.NewSource(int64(seed) + 1)), start: time.Now(), limit: time.Duration(secs) * time.Second, path: os.Getenv("VERIF_RESULT")}
}

func (k *K) write(r result) {
	if k.path == "" {
		return
	}
	b, _ := json.Marshal(r)
	os.WriteFile(k.path, b, 0o644)
}

// Budget lets a harness use a fraction of the whole time budget.
func (k *K) Budget(frac float64) { k.limit = time.Duration(float64(k.limit) * frac) }

// More reports whether another case should be tried.
func (k *K) More() bool {
	return time.Since(k.start) < k.limit && (k.Limit == 0 || k.N < k.Limit)
}

// Fail records a failing input and ends the process' search.
func (k *K) Fail(input, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	k.write(result{Input: clip(input, 6000) + " => " + clip(msg, 3000), Stats: k.Stats()})
	k.T.Fatalf("FAILING-INPUT %s => %s", input, msg)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Stats describes the cases tried.
func (k *K) Stats() string {
	return strings.TrimSpace(fmt.Sprintf("%d cases in %.1fs %s", k.N, time.Since(k.start).Seconds(), k.Bound))
}

// Done records the statistics of a search without a failing input.
func (k *K) Done() {
	if k.T.Failed() {
		return
	}
	k.write(result{Stats: k.Stats()})
}

// Do runs one case; f returns a description of what is wrong, or "". A panic
// and a case that does not end within 20 seconds are wrong too.
func (k *K) Do(input string, f func() string) {
	k.T.Helper()
	k.N++
	if k.N&1023 == 1 {
		k.write(result{Current: input, Stats: k.Stats()})
	}
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				ch <- fmt.Sprintf("panic: %v\n%s", r, clip(st, 2500))
			}
		}()
		ch <- f()
	}()
	select {
	case m := <-ch:
		if m != "" {
			k.Fail(input, "%s", m)
		}
	case <-time.After(20 * time.Second):
		k.Fail(input, "did not finish within 20 s")
	}
}

// Mark records the case in progress, for cases that can end the process.
func (k *K) Mark(input string) { k.write(result{Current: input, Stats: k.Stats()}) }
