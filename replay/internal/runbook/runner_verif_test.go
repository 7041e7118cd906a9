package runbook

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/sjansen/pgutil/internal/runbook/types"
	"github.com/sjansen/pgutil/internal/verifkit"
)

type vEvent struct {
	kind, target, task, msg string
	err                     error
	cfg                     types.TaskConfig
}

type vRec struct {
	mu sync.Mutex
	ev []vEvent
}

func (r *vRec) add(e vEvent) {
	r.mu.Lock()
	r.ev = append(r.ev, e)
	r.mu.Unlock()
}

// vLog records every message
type vLog struct{ r *vRec }

func (l *vLog) put(s string)                         { l.r.add(vEvent{kind: "log", msg: s}) }
func (l *vLog) Sync() error                          { return nil }
func (l *vLog) Error(a ...interface{})               { l.put(fmt.Sprint(a...)) }
func (l *vLog) Errorf(t string, a ...interface{})    { l.put(fmt.Sprintf(t, a...)) }
func (l *vLog) Errorw(m string, a ...interface{})    { l.put(m) }
func (l *vLog) Warn(a ...interface{})                { l.put(fmt.Sprint(a...)) }
func (l *vLog) Warnf(t string, a ...interface{})     { l.put(fmt.Sprintf(t, a...)) }
func (l *vLog) Warnw(m string, a ...interface{})     { l.put(m) }
func (l *vLog) Info(a ...interface{})                { l.put(fmt.Sprint(a...)) }
func (l *vLog) Infof(t string, a ...interface{})     { l.put(fmt.Sprintf(t, a...)) }
func (l *vLog) Infow(m string, a ...interface{})     { l.put(m) }
func (l *vLog) Debug(args ...interface{})            {}
func (l *vLog) Debugf(t string, args ...interface{}) {}
func (l *vLog) Debugw(m string, args ...interface{}) {}

type vConfig struct{ task string }

func (c *vConfig) Check() error { return nil }

type vTarget struct {
	rec      *vRec
	id       string
	limit    int
	startErr error
	fail     map[string]error
	slow     map[string]int
}

func (t *vTarget) Analyze() error                                   { return nil }
func (t *vTarget) ConcurrencyLimit() int                            { return t.limit }
func (t *vTarget) NewTaskConfig(c string) (types.TaskConfig, error) { return &vConfig{}, nil }
func (t *vTarget) Start() error {
	t.rec.add(vEvent{kind: "start", target: t.id, err: t.startErr})
	return t.startErr
}
func (t *vTarget) Stop() error {
	t.rec.add(vEvent{kind: "stop", target: t.id})
	return nil
}
func (t *vTarget) Handle(ctx context.Context, c types.TaskConfig) error {
	task := "?"
	if x, ok := c.(*vConfig); ok && x != nil {
		task = x.task
	}
	t.rec.add(vEvent{kind: "begin", target: t.id, task: task, cfg: c})
	for i := 0; i < t.slow[task]; i++ {
		runtime.Gosched()
	}
	if t.slow[task] > 40 {
		time.Sleep(200 * time.Microsecond)
	}
	err := t.fail[task]
	t.rec.add(vEvent{kind: "end", target: t.id, task: task, err: err})
	return err
}

type vErr struct{ s string }

func (e *vErr) Error() string { return e.s }

type vCase struct {
	rec     *vRec
	targets types.Targets
	vts     map[string]*vTarget
	tasks   types.Tasks
	order   []string
	startOK bool
	refused bool
	fails   map[string]error
}

func vBook(k *verifkit.K, sound bool) *vCase {
	c := &vCase{rec: &vRec{}, targets: types.Targets{}, vts: map[string]*vTarget{}, tasks: types.Tasks{}, startOK: true, fails: map[string]error{}}
	nt := 1 + k.R.Intn(4)
	var tids []string
	for i := 0; i < nt; i++ {
		id := fmt.Sprintf("t%d", i)
		v := &vTarget{rec: c.rec, id: id, limit: 1 + k.R.Intn(3), fail: map[string]error{}, slow: map[string]int{}}
		if !sound && k.R.Intn(25) == 0 {
			v.startErr = &vErr{"start " + id}
			c.startOK = false
		}
		c.targets[id] = v
		c.vts[id] = v
		tids = append(tids, id)
	}
	n := k.R.Intn(9)
	mode := k.R.Intn(3)
	failing := k.R.Intn(3) > 0 && !sound
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("k%d", (i*7)%11)
		for c.tasks[id] != nil {
			id += "x"
		}
		tid := tids[k.R.Intn(nt)]
		t := &types.Task{Target: tid, Config: &vConfig{id}}
		if k.R.Intn(3) > 0 {
			t.Message = "about to run " + id + " 100%d"
		}
		for _, o := range c.order {
			if mode > 0 && k.R.Intn(3) == 0 || mode == 2 && o == c.order[len(c.order)-1] {
				t.After = append(t.After, o)
			}
		}
		if k.R.Intn(6) == 0 && len(t.After) > 0 {
			t.After = append(t.After, t.After[0])
		}
		if failing && k.R.Intn(4) == 0 {
			c.fails[id] = &vErr{"failed " + id}
			c.vts[tid].fail[id] = c.fails[id]
		}
		if k.R.Intn(3) == 0 {
			c.vts[tid].slow[id] = k.R.Intn(60)
		}
		c.tasks[id] = t
		c.order = append(c.order, id)
	}
	if !sound && n > 0 && k.R.Intn(12) == 0 {
		c.refused = true
		a := c.order[k.R.Intn(n)]
		if k.R.Intn(2) == 0 {
			c.tasks[a].After = append(c.tasks[a].After, "nosuch")
		} else {
			b := c.order[0]
			last := c.order[n-1]
			c.tasks[b].After = append(c.tasks[b].After, last)
			if b != last {
				c.tasks[last].After = append(c.tasks[last].After, b)
			}
		}
	}
	return c
}

func (c *vCase) String() string {
	var l []string
	for id, v := range c.vts {
		s := fmt.Sprintf("target %s(limit %d)", id, v.limit)
		if v.startErr != nil {
			s += " does not start"
		}
		l = append(l, s)
	}
	sort.Strings(l)
	for _, id := range c.order {
		t := c.tasks[id]
		s := fmt.Sprintf("task %s on %s after %v", id, t.Target, t.After)
		if t.Message != "" {
			s += " message"
		}
		if c.fails[id] != nil {
			s += " fails"
		}
		l = append(l, s)
	}
	return strings.Join(l, "; ")
}

func (c *vCase) history() string {
	var l []string
	for _, e := range c.rec.ev {
		s := e.kind + " " + e.target + " " + e.task + e.msg
		if e.err != nil {
			s += " err=" + e.err.Error()
		}
		l = append(l, strings.TrimSpace(s))
	}
	return " history: " + strings.Join(l, ", ")
}

// what every target did
func (c *vCase) targetsOK() string {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	open := map[string]string{}
	failed := map[string]string{}
	stops := map[string]int{}
	started := map[string]bool{}
	ran := map[string]int{}
	logged := map[string]bool{}
	for _, e := range c.rec.ev {
		switch e.kind {
		case "log":
			logged[e.msg] = true
		case "start":
			if e.err == nil {
				started[e.target] = true
			}
		case "begin":
			t := c.tasks[e.task]
			switch {
			case t == nil || t.Config != e.cfg:
				return fmt.Sprintf("target %s executed %q, which no task has as its configuration", e.target, e.task) + c.history()
			case t.Target != e.target:
				return "task " + e.task + " was executed on target " + e.target + c.history()
			case open[e.target] != "":
				return "target " + e.target + " executes two tasks at a time" + c.history()
			case failed[e.target] != "":
				return "target " + e.target + " executed " + e.task + " after " + failed[e.target] + " failed" + c.history()
			case stops[e.target] > 0:
				return "target " + e.target + " executed " + e.task + " after it was stopped" + c.history()
			case ran[e.task] > 0:
				return "task " + e.task + " was executed twice" + c.history()
			case t.Message != "" && !logged[t.Message]:
				return "task " + e.task + " was executed before its message was logged" + c.history()
			}
			ran[e.task]++
			open[e.target] = e.task
		case "end":
			open[e.target] = ""
			if e.err != nil {
				failed[e.target] = e.task
			}
		case "stop":
			stops[e.target]++
			if open[e.target] != "" {
				return "target " + e.target + " was stopped while executing " + open[e.target] + c.history()
			}
		}
	}
	for id := range c.vts {
		if started[id] && stops[id] != 1 {
			return fmt.Sprintf("target %s was stopped %d times", id, stops[id]) + c.history()
		}
	}
	return ""
}

// the outcome of the run, and what was executed in which order
func (c *vCase) runOK(err error) string {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	ended := map[string]bool{}
	ran := map[string]bool{}
	var errs []error
	for _, e := range c.rec.ev {
		switch e.kind {
		case "start":
			if e.err != nil {
				errs = append(errs, e.err)
			}
		case "begin":
			if ran[e.task] {
				return "task " + e.task + " was executed twice" + c.history()
			}
			ran[e.task] = true
			if t := c.tasks[e.task]; t != nil {
				for _, d := range t.After {
					if !ended[d] {
						return "task " + e.task + " was executed before " + d + " completed without error" + c.history()
					}
				}
			}
		case "end":
			if e.err == nil {
				ended[e.task] = true
			} else {
				errs = append(errs, e.err)
			}
		}
	}
	switch {
	case c.refused:
		if err == nil {
			return "dependencies that are cyclic or unknown are no error" + c.history()
		}
	case len(errs) > 0:
		if err == nil {
			return "a failure is not reported" + c.history()
		}
		for _, e := range errs {
			if e == err {
				return ""
			}
		}
		return "reported " + err.Error() + ", which did not happen" + c.history()
	default:
		if err != nil {
			return "reported " + err.Error() + " although nothing failed" + c.history()
		}
		for _, id := range c.order {
			if !ended[id] {
				return "no error, but task " + id + " was not executed" + c.history()
			}
		}
	}
	return ""
}

func vField(r interface{}, name string) (f reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	f = reflect.ValueOf(r).Elem().FieldByName(name)
	if !f.IsValid() {
		return f, false
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem(), true
}

// vDirect sends tasks to started targets and reads the outcomes; ok reports
// whether the runner is made that way.
func vDirect(c *vCase, perm []int) (msg string, ok bool) {
	r := newRunner(&vLog{c.rec}, c.targets, c.tasks)
	st, has := interface{}(r).(interface{ startTargets() error })
	ready, ok1 := vField(r, "ready")
	ended, ok2 := vField(r, "ended")
	if !has || !ok1 || !ok2 || ready.Kind() != reflect.Chan || ended.Kind() != reflect.Chan || ready.Type().Elem().Kind() != reflect.Ptr || ended.Type().Elem().Kind() != reflect.Ptr {
		return "", false
	}
	if ready.Type().Elem().Elem().Kind() != reflect.Struct || ended.Type().Elem().Elem().Kind() != reflect.Struct {
		return "", false
	}
	var msgs []reflect.Value
	for _, i := range perm {
		id := c.order[i]
		t := c.tasks[id]
		m := reflect.New(ready.Type().Elem().Elem())
		for name, v := range map[string]interface{}{"target": t.Target, "taskID": id, "message": t.Message, "task": t.Config} {
			f, ok := vField(m.Interface(), name)
			if !ok {
				return "", false
			}
			if f.Kind() == reflect.String {
				f.SetString(v.(string))
			} else {
				f.Set(reflect.ValueOf(v))
			}
		}
		msgs = append(msgs, m)
	}
	if f, ok := vField(reflect.New(ended.Type().Elem().Elem()).Interface(), "taskID"); !ok || f.Kind() != reflect.String {
		return "", false
	}
	if _, ok := vField(reflect.New(ended.Type().Elem().Elem()).Interface(), "err"); !ok {
		return "", false
	}
	if err := st.startTargets(); err != nil {
		return "the targets did not start: " + err.Error(), true
	}
	go func() {
		for _, m := range msgs {
			ready.Send(m)
		}
		ready.Close()
	}()
	got := map[string][]error{}
	for {
		x, more := ended.Recv()
		if !more {
			break
		}
		id, _ := vField(x.Interface(), "taskID")
		e, _ := vField(x.Interface(), "err")
		err, _ := e.Interface().(error)
		got[id.String()] = append(got[id.String()], err)
	}
	if m := c.targetsOK(); m != "" {
		return m, true
	}
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	ran := map[string]bool{}
	dead := map[string]bool{}
	for _, e := range c.rec.ev {
		if e.kind == "end" {
			ran[e.task] = true
			if e.err != nil {
				dead[e.target] = true
			}
			if len(got[e.task]) != 1 || got[e.task][0] != e.err {
				return fmt.Sprintf("task %s ended with %v, its outcomes are %v", e.task, e.err, got[e.task]) + c.history(), true
			}
			delete(got, e.task)
		}
	}
	for id, l := range got {
		return fmt.Sprintf("outcomes %v of %q, which was not executed", l, id) + c.history(), true
	}
	for _, i := range perm {
		id := c.order[i]
		if !ran[id] && !dead[c.tasks[id].Target] {
			return "task " + id + " reached its target and was not executed" + c.history(), true
		}
	}
	return "", true
}

func TestVerifReplayP07(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	for k.More() {
		if k.R.Intn(2) == 0 {
			c := vBook(k, true)
			for _, id := range c.order {
				if k.R.Intn(5) == 0 {
					c.fails[id] = &vErr{"failed " + id}
					c.vts[c.tasks[id].Target].fail[id] = c.fails[id]
				}
			}
			perm := k.R.Perm(len(c.order))
			k.Do("delivered in order "+fmt.Sprint(perm)+": "+c.String(), func() string {
				m, _ := vDirect(c, perm)
				return m
			})
			continue
		}
		c := vBook(k, false)
		k.Do(c.String(), func() string {
			r := newRunner(&vLog{c.rec}, c.targets, c.tasks)
			r.run()
			return c.targetsOK()
		})
	}
}

func TestVerifReplayP06(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	for k.More() {
		c := vBook(k, false)
		k.Do(c.String(), func() string {
			r := newRunner(&vLog{c.rec}, c.targets, c.tasks)
			return c.runOK(r.run())
		})
	}
}
