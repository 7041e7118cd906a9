package scheduler_test

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/verifkit"
)

type vTarget struct{ limit int }

func (t *vTarget) Analyze() error                                          { return nil }
func (t *vTarget) ConcurrencyLimit() int                                   { return t.limit }
func (t *vTarget) Handle(ctx context.Context, task types.TaskConfig) error { return nil }
func (t *vTarget) NewTaskConfig(class string) (types.TaskConfig, error)    { return nil, nil }
func (t *vTarget) Start() error                                            { return nil }
func (t *vTarget) Stop() error                                             { return nil }

type vBook struct {
	caps  map[string]int
	tasks map[string]string
	after map[string][]string
	order []int // choices among the running tasks
}

func vRandomBook(k *verifkit.K) *vBook {
	names := []string{"a", "", "b", "c", "t1", "t10", "t2", "é", "\x00", "d", "e", "f"}
	tnames := []string{"q1", "", "q2", "a"}
	b := &vBook{caps: map[string]int{}, tasks: map[string]string{}, after: map[string][]string{}}
	nt := 1 + k.R.Intn(4)
	for i := 0; i < nt; i++ {
		b.caps[tnames[i]] = 1 + k.R.Intn(4)
		if k.R.Intn(25) == 0 {
			b.caps[tnames[i]] = k.R.Intn(2) - 1
		}
	}
	n := k.R.Intn(len(names) + 1)
	perm := k.R.Perm(n)
	dens := k.R.Intn(4)
	for i := 0; i < n; i++ {
		b.tasks[names[i]] = tnames[k.R.Intn(nt)]
		if k.R.Intn(60) == 0 {
			b.tasks[names[i]] = "missing"
		}
		for j := 0; j < n; j++ {
			if (perm[j] < perm[i] || k.R.Intn(200) == 0) && k.R.Intn(6) < dens {
				b.after[names[i]] = append(b.after[names[i]], names[j])
				if k.R.Intn(9) == 0 {
					b.after[names[i]] = append(b.after[names[i]], names[j])
				}
			}
		}
		if k.R.Intn(150) == 0 {
			b.after[names[i]] = append(b.after[names[i]], "nowhere")
		}
	}
	for i := 0; i < 20; i++ {
		b.order = append(b.order, k.R.Intn(1000))
	}
	return b
}

// vFeasible: no dangling name, no cycle
func vFeasible(b *vBook) bool {
	done := map[string]bool{}
	for {
		grew := false
		for t := range b.tasks {
			ok := !done[t]
			for _, a := range b.after[t] {
				ok = ok && done[a]
			}
			if ok {
				done[t], grew = true, true
			}
		}
		if !grew {
			return len(done) == len(b.tasks)
		}
	}
}

type vBatch struct {
	m    map[string][]string
	copy string
}

// vRun plays a runbook; part selects the property whose failures count.
func vRun(b *vBook, part string) string {
	p04 := func(format string, a ...interface{}) string {
		if part == "P04" {
			return fmt.Sprintf(format, a...)
		}
		return ""
	}
	p05 := func(format string, a ...interface{}) string {
		if part == "P05" {
			return fmt.Sprintf(format, a...)
		}
		return ""
	}
	targets, tasks := types.Targets{}, types.Tasks{}
	for q, n := range b.caps {
		targets[q] = &vTarget{n}
	}
	for t, q := range b.tasks {
		tasks[t] = &types.Task{Target: q, After: b.after[t]}
	}
	s, ready, err := scheduler.New(targets, tasks)
	if !vFeasible(b) {
		if err == nil {
			return p04("dependencies cannot be met, but no error")
		}
		return ""
	}
	if err != nil {
		return p04("New failed: %v", err)
	}
	out, done := map[string]bool{}, map[string]bool{}
	running := map[string][]string{}
	var batches []vBatch
	for step := 0; ; step++ {
		if ready == nil {
			return p05("nil batch without an error")
		}
		batches = append(batches, vBatch{ready, fmt.Sprint(ready)})
		for q, l := range ready {
			for _, t := range l {
				if _, ok := b.tasks[t]; !ok {
					if r := p04("unknown task %q handed out", t); r != "" {
						return r
					}
					return ""
				}
				if b.tasks[t] != q {
					if r := p04("task %q handed out under %q", t, q); r != "" {
						return r
					}
				}
				if out[t] {
					return p04("task %q handed out twice", t)
				}
				for _, a := range b.after[t] {
					if !done[a] {
						if r := p04("task %q handed out before %q completed", t, a); r != "" {
							return r
						}
					}
				}
				out[t] = true
				running[q] = append(running[q], t)
			}
		}
		for q, l := range running {
			if n, ok := b.caps[q]; len(l) > 0 && (!ok || len(l) > n) {
				if r := p05("target %q runs %d tasks, its limit is %d", q, len(l), n); r != "" {
					return r
				}
			}
		}
		for t, q := range b.tasks {
			ok := !out[t]
			for _, a := range b.after[t] {
				ok = ok && done[a]
			}
			if n, has := b.caps[q]; ok && has && len(running[q]) < n {
				if r := p05("step %d: task %q could run, target %q has spare capacity (%d of %d)", step, t, q, len(running[q]), n); r != "" {
					return r
				}
			}
		}
		var cand []string
		for _, l := range running {
			cand = append(cand, l...)
		}
		if len(cand) == 0 {
			break
		}
		sort.Strings(cand)
		c := cand[b.order[step%len(b.order)]%len(cand)]
		q := b.tasks[c]
		var left []string
		for _, x := range running[q] {
			if x != c {
				left = append(left, x)
			}
		}
		running[q] = left
		all := true
		for t := range b.tasks {
			all = all && out[t]
		}
		ready, err = s.Next(c)
		done[c] = true
		if (err != nil) != all {
			return p05("step %d: Next(%q): err %v, all handed out: %v", step, c, err, all)
		}
		if err != nil {
			if !errors.Is(err, scheduler.ErrNoPendingTasks) || ready != nil {
				return p05("Next at the end: %v, %v", ready, err)
			}
			ready = map[string][]string{}
		}
		for _, x := range batches {
			if fmt.Sprint(x.m) != x.copy {
				return p04("step %d: an earlier batch was altered from %s to %v", step, x.copy, x.m)
			}
		}
	}
	if part == "P04" {
		for t, q := range b.tasks {
			stuck := false
			if b.caps[q] < 1 {
				stuck = true
			}
			for _, a := range b.after[t] {
				stuck = stuck || !out[a]
			}
			if !out[t] && !stuck {
				return p04("task %q was never handed out", t)
			}
		}
	}
	return ""
}

func vSearch(t *testing.T, part string) {
	k := verifkit.New(t)
	for k.More() {
		b := vRandomBook(k)
		k.Do(fmt.Sprintf("targets %v tasks %q after %q completion choices %v", b.caps, b.tasks, b.after, b.order), func() string { return vRun(b, part) })
	}
	k.Done()
}

func TestVerifReplayP04(t *testing.T) { vSearch(t, "P04") }
func TestVerifReplayP05(t *testing.T) { vSearch(t, "P05") }
