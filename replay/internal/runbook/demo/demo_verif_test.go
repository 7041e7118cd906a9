package demo_test

import (
	"bytes"
	"context"

	"fmt"
	"testing"
	"time"

	"github.com/sjansen/pgutil/internal/runbook/demo"
	"github.com/sjansen/pgutil/internal/verifkit"
)

type verifOther struct{}

func (*verifOther) Check() error           { return nil }
func (*verifOther) Ready() error           { return nil }
func (*verifOther) Dependencies() []string { return nil }
func (*verifOther) Provides() []string     { return nil }

func verifText(k *verifkit.K) string {
	pool := []rune("abmnyzABMNYZ@[`{ 019\n\t\x00éßñÀžλΩдЯ漢字🙂\u0301\ufffd\U0010ffff\u007f\u0080")
	n := k.R.Intn(12)
	rs := make([]rune, n)
	for i := range rs {
		if k.R.Intn(2) == 0 {
			rs[i] = rune(32 + k.R.Intn(95))
		} else {
			rs[i] = pool[k.R.Intn(len(pool))]
		}
	}
	return string(rs)
}

func verifRot(r rune) rune {
	const lo, up = "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	for i := range lo {
		if r == rune(lo[i]) {
			return rune(lo[(i+13)%26])
		}
		if r == rune(up[i]) {
			return rune(up[(i+13)%26])
		}
	}
	return r
}

func TestVerifReplayP23(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	for _, secs := range []int{-1 << 40, -3, 0, 1, 2, 3600} {
		k.Do(fmt.Sprintf("sleep task of %d seconds", secs), func() string {
			s := &demo.Sleep{Seconds: secs}
			err := s.Check()
			if err != nil || s.Seconds < 1 || secs >= 1 && s.Seconds != secs {
				return fmt.Sprint("checked: ", err, ", ", s.Seconds, " seconds")
			}
			if secs > 1 {
				return ""
			}
			if s.Seconds > 5 {
				return ""
			}
			tg := (&demo.TargetFactory{}).NewTarget().(*demo.Target)
			t0 := time.Now()
			err = tg.Handle(context.Background(), s)
			if d := time.Since(t0); err != nil || d < time.Second {
				return fmt.Sprint("slept ", d, ", ", err)
			}
			return ""
		})
	}
	for _, c := range []string{"echo", "fail", "rev", "rot13", "sleep", "", "Echo", "rot", "rot14", "exec", "reverse", " rev", "sleep "} {
		k.Do(fmt.Sprintf("task class %q", c), func() string {
			tg := (&demo.TargetFactory{}).NewTarget().(*demo.Target)
			x, err := tg.NewTaskConfig(c)
			want := map[string]string{"echo": "*demo.Echo", "fail": "*demo.Fail", "rev": "*demo.Rev", "rot13": "*demo.Rot13", "sleep": "*demo.Sleep"}[c]
			if want == "" && err == nil || want != "" && (err != nil || fmt.Sprintf("%T", x) != want) {
				return fmt.Sprintf("%T, %v", x, err)
			}
			return ""
		})
	}
	k.Do("a task of another kind", func() string {
		var out bytes.Buffer
		tg := (&demo.TargetFactory{Stdout: &out}).NewTarget().(*demo.Target)
		tg.String = "abc"
		if err := tg.Handle(context.Background(), &verifOther{}); err == nil || tg.String != "abc" || out.Len() > 0 {
			return fmt.Sprint("accepted: ", err, tg.String, out.String())
		}
		return ""
	})
	for k.More() && k.N < 200000 {
		s := verifText(k)
		k.Do(fmt.Sprintf("text %q", s), func() string {
			var out bytes.Buffer
			tg := (&demo.TargetFactory{Stdout: &out}).NewTarget().(*demo.Target)
			ctx := context.Background()
			tg.String = s
			rs := []rune(s)
			var rev, rot []rune
			for i := range rs {
				rev = append(rev, rs[len(rs)-1-i])
				rot = append(rot, verifRot(rs[i]))
			}
			if err := tg.Handle(ctx, &demo.Rev{}); err != nil || tg.String != string(rev) {
				return fmt.Sprintf("reversed: %q, %v", tg.String, err)
			}
			if err := tg.Handle(ctx, &demo.Rev{}); err != nil || tg.String != s {
				return fmt.Sprintf("reversed twice: %q, %v", tg.String, err)
			}
			if err := tg.Handle(ctx, &demo.Rot13{}); err != nil || tg.String != string(rot) {
				return fmt.Sprintf("rot13: %q, %v", tg.String, err)
			}
			if err := tg.Handle(ctx, &demo.Rot13{}); err != nil || tg.String != s {
				return fmt.Sprintf("rot13 twice: %q, %v", tg.String, err)
			}
			if err := tg.Handle(ctx, &demo.Fail{}); err == nil || tg.String != s {
				return fmt.Sprintf("fail: %q, %v", tg.String, err)
			}
			if out.Len() != 0 {
				return fmt.Sprintf("printed: %q", out.String())
			}
			if err := tg.Handle(ctx, &demo.Echo{}); err != nil || tg.String != s || out.String() != s+"\n" {
				return fmt.Sprintf("echo: %q, %q, %v", out.String(), tg.String, err)
			}
			if err := tg.Handle(ctx, &demo.Echo{}); err != nil || out.String() != s+"\n"+s+"\n" {
				return fmt.Sprintf("echo twice: %q, %v", out.String(), err)
			}
			return ""
		})
	}
}
