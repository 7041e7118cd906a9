package logger_test

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/verifkit"
)

type verifNamed struct{ bytes.Buffer }

func (*verifNamed) Name() string { return "verif.log" }

type verifFd struct{ bytes.Buffer }

func (*verifFd) Fd() uintptr { return ^uintptr(0) }

type verifBuf interface {
	io.Writer
	String() string
}

func TestVerifReplayP22(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	mk := []func() verifBuf{
		func() verifBuf { return &bytes.Buffer{} },
		func() verifBuf { return &verifNamed{} },
		func() verifBuf { return &verifFd{} },
	}
	names := []string{"plain", "named", "with a descriptor"}
	for _, v := range []int{-1 << 31, -5, -2, -1, 0, 1, 2, 3, 4, 5, 100, 1<<31 - 1} {
		for di := range mk {
			for gi := -1; gi < len(mk); gi++ {
				in := fmt.Sprintf("verbosity %d, %s default log, ", v, names[di])
				if gi < 0 {
					in += "no debug log"
				} else {
					in += names[gi] + " debug log"
				}
				k.Do(in, func() string {
					d := mk[di]()
					var g verifBuf
					l := logger.New(v, d, nil)
					if gi >= 0 {
						g = mk[gi]()
						l = logger.New(v, d, g)
					}
					for round, x := range []interface {
						Debugf(string, ...interface{})
						Infow(string, ...interface{})
						Warn(...interface{})
						Errorf(string, ...interface{})
					}{l, l.Named("sub"), l.With("k", 1)} {
						x.Debugf("message-debug-%d", round)
						x.Infow(fmt.Sprintf("message-info-%d", round))
						x.Warn(fmt.Sprintf("message-warn-%d", round))
						x.Errorf("message-error-%d", round)
						for i, s := range []string{"error", "warn", "info", "debug"} {
							m := fmt.Sprintf("message-%s-%d", s, round)
							want := 0
							if i == 0 || v >= i {
								want = 1
							}
							if n := strings.Count(d.String(), m); n != want {
								return fmt.Sprintf("the %s message is in the default log %d times, not %d", s, n, want)
							}
							if gi >= 0 {
								if n := strings.Count(g.String(), m); n != 1 {
									return fmt.Sprintf("the %s message is in the debug log %d times", s, n)
								}
							}
						}
					}
					return ""
				})
			}
		}
	}
	k.Do("Discard", func() string {
		logger.Discard().Error("x")
		return ""
	})
}
