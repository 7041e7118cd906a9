PROP="P05"; PKG="internal/runbook/scheduler"
EDITS=[("internal/runbook/scheduler/scheduler.go","""		case n > len(tasks):
			n = len(tasks)
		}
""","""		case n > len(tasks):
			n = len(tasks)
		}
		if n > 2 {
			n = 2 // start gently
		}
""")]
NEEDS="a target whose limit is 3 or more with that many runnable tasks"
BREAKS="runnable tasks are left waiting although their target has spare capacity"
DEMO='''package scheduler_test

import (
	"context"
	"testing"

	"github.com/sjansen/pgutil/internal/runbook/scheduler"
	"github.com/sjansen/pgutil/internal/runbook/types"
)

type dTarget struct{ n int }

func (t *dTarget) Analyze() error                                          { return nil }
func (t *dTarget) ConcurrencyLimit() int                                   { return t.n }
func (t *dTarget) Handle(ctx context.Context, task types.TaskConfig) error { return nil }
func (t *dTarget) NewTaskConfig(class string) (types.TaskConfig, error)    { return nil, nil }
func (t *dTarget) Start() error                                            { return nil }
func (t *dTarget) Stop() error                                             { return nil }

func TestDemo(t *testing.T) {
	_, ready, err := scheduler.New(types.Targets{"q": &dTarget{4}}, types.Tasks{
		"a": {Target: "q"},
		"b": {Target: "q"},
		"c": {Target: "q"},
	})
	if err != nil || len(ready["q"]) != 3 {
		t.Fatal(ready, err)
	}
}
'''
