PROP="P04"; PKG="internal/runbook/scheduler"
EDITS=[("internal/runbook/scheduler/scheduler.go","""		deps[k] = v.After
""","""		deps[k] = direct(tasks, v.After)
"""),("internal/runbook/scheduler/scheduler.go","""// Next returns a set of tasks ready""","""// direct leaves out prerequisites that are implied by others
func direct(tasks types.Tasks, after []string) []string {
	implied := map[string]bool{}
	for _, x := range after {
		for _, y := range after {
			if t, ok := tasks[x]; ok && x != y {
				for _, z := range t.After {
					if z == y {
						implied[x] = true
					}
				}
			}
		}
	}
	var result []string
	for _, x := range after {
		if !implied[x] {
			result = append(result, x)
		}
	}
	return result
}

// Next returns a set of tasks ready""")]
NEEDS="a task that runs after two tasks of which one runs after the other"
BREAKS="the task is handed out when the earlier one completed, before the later one did"
DEMO='''package scheduler_test

import (
	"context"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
)

type dTarget struct{ n int }

func (t *dTarget) Analyze() error                                          { return nil }
func (t *dTarget) ConcurrencyLimit() int                                   { return t.n }
func (t *dTarget) Handle(ctx context.Context, task types.TaskConfig) error { return nil }
func (t *dTarget) NewTaskConfig(class string) (types.TaskConfig, error)    { return nil, nil }
func (t *dTarget) Start() error                                            { return nil }
func (t *dTarget) Stop() error                                             { return nil }

func TestDemo(t *testing.T) {
	s, _, err := scheduler.New(types.Targets{"q": &dTarget{4}}, types.Tasks{
		"a": {Target: "q"},
		"b": {Target: "q", After: []string{"a"}},
		"c": {Target: "q", After: []string{"a", "b"}},
	})
	if err != nil {
		t.Fatal(err)
	}
	ready, err := s.Next("a")
	if err != nil || len(ready["q"]) != 1 || ready["q"][0] != "b" {
		t.Fatal(ready, err)
	}
}
'''
