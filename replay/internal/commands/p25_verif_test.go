package commands_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/verifkit"
)

// verifTerminal opens a terminal: what is written to it can be read from out.
func verifTerminal(t *testing.T) (tty *os.File, out func() string, done func()) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, func() {}
	}
	var n, unlock int32
	syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&unlock)))
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 {
		m.Close()
		return nil, nil, func() {}
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, func() {}
	}
	return s, func() string {
		b := make([]byte, 1<<16)
		k, _ := m.Read(b)
		return string(b[:k])
	}, func() { s.Close(); m.Close() }
}

func TestVerifReplayP25(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	dir := filepath.Join(verifScratch(t), "p25")
	pick := func(xs ...string) string { return xs[k.R.Intn(len(xs))] }
	for k.More() {
		if k.R.Intn(4) == 0 {
			verifDatabase(t, k)
			continue
		}
		if err := os.RemoveAll(dir); err != nil {
			t.Fatal(err)
		}
		b := verifRandomBook(k)
		text := b.json()
		// runbooks with and without extensions
		file := filepath.Join(dir, pick("", "sub", "sub.d", "dot.dir/x"), pick("book.json", "book", "book.jsonnet", ".hidden", "a.b.c", "book.", "book.dot.json", "sp ace.txt"))
		verifWrite(t, file, text)
		os.MkdirAll(filepath.Join(dir, "out"), 0o755)
		auto := ""
		for i := len(file) - 1; i >= 0 && file[i] != '/'; i-- {
			if file[i] == '.' {
				auto = file[:i] + ".dot"
				break
			}
		}
		if auto == "" {
			auto = file + ".dot"
		}
		named := filepath.Join(dir, "out", pick("g.dot", "noext", "x.y", "-", "--"))
		output, want := "", "" // want: the file that is written
		opens := true
		switch k.R.Intn(5) {
		case 0:
			output = "-"
		case 1, 2:
			output, want = named, named
		case 3:
			output = filepath.Join(dir, "missing", "g.dot")
			want, opens = output, false
		}
		old := k.R.Intn(2) == 0
		broken := k.R.Intn(5) == 0
		if broken {
			verifWrite(t, file, pick("{", `{"targets":{},"tasks":{"x":{"target":"y"}}}`, "12", "{}}"))
		}
		before := strings.Repeat("earlier contents\n", 4000)
		var out, errs verifWriter
		out.WriteString("before\n")
		judge := func(err error, good func(string) string) string {
			got := out.String()
			if !strings.HasPrefix(got, "before\n") {
				return "earlier output is gone"
			}
			got = got[len("before\n"):]
			if errs.Len() > 0 {
				return "there is error output"
			}
			if want != "" && got != "" {
				return fmt.Sprintf("there is output, it should only go to %s", want)
			}
			if broken || !opens {
				if err == nil {
					return "there is no error"
				}
				if !opens && got != "" {
					return "there is output"
				}
				return ""
			}
			if err != nil {
				return "failed: " + err.Error()
			}
			if want != "" {
				b, err := os.ReadFile(want)
				if err != nil {
					return "the output file: " + err.Error()
				}
				got = string(b)
			}
			return good(got)
		}
		files := func() map[string]bool {
			m := map[string]bool{}
			filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
				if err == nil && !i.IsDir() && p != file {
					m[p] = true
				}
				return nil
			})
			return m
		}
		if k.R.Intn(2) == 0 {
			c := &commands.RunBookDotCmd{File: file, Output: output, AutoOut: k.R.Intn(2) == 0}
			if c.AutoOut && output == "" {
				want = auto
			}
			if want != "" && want == file {
				continue
			}
			if old && opens && want != "" {
				verifWrite(t, want, before)
			}
			input := fmt.Sprintf("graph with File=%q Output=%q AutoOut=%v of %s (valid: %v, output file exists: %v)", c.File, c.Output, c.AutoOut, text, !broken, old && want != "")
			k.Do(input, func() string {
				if m := judge(c.Run(verifBase(&out, &errs)), func(s string) string { return b.checkGraph(s) }); m != "" {
					return m
				}
				for f := range files() {
					if f != want {
						return "file " + f + " was written"
					}
				}
				return ""
			})
			continue
		}
		if old && opens && want != "" {
			verifWrite(t, want, before)
		}
		c := &commands.RunBookEvalCmd{File: file, Output: output, Color: pick("true", "auto", "false", "", "auto", "True")}
		input := fmt.Sprintf("evaluation with File=%q Output=%q Color=%q of %s (valid: %v, output file exists: %v)", c.File, c.Output, c.Color, text, !broken, old && want != "")
		if broken {
			verifWrite(t, file, "{")
		}
		k.Do(input, func() string {
			if m := judge(c.Run(verifBase(&out, &errs)), func(s string) string {
				if strings.Contains(s, "\x1b[") != (c.Color == "true") {
					return fmt.Sprintf("coloured: %v", c.Color != "true")
				}
				if !strings.HasPrefix(s, "{") || !strings.HasSuffix(s, "}") {
					return "the output is not the whole object"
				}
				return ""
			}); m != "" {
				return m
			}
			for f := range files() {
				if f != want {
					return "file " + f + " was written"
				}
			}
			return ""
		})
		if k.R.Intn(4) != 0 {
			continue
		}
		// a terminal
		tty, read, done := verifTerminal(t)
		if tty == nil {
			continue
		}
		verifWrite(t, file, `{"targets":{"a":{"class":"demo"}},"tasks":{}}`)
		col := pick("true", "auto", "false", "", "auto")
		toFile := k.R.Intn(3) == 0
		k.Do(fmt.Sprintf("evaluation with Color=%q with a terminal as standard output, to a file: %v", col, toFile), func() string {
			base := verifBase(&out, &errs)
			base.Stdout = tty
			c := &commands.RunBookEvalCmd{File: file, Color: col}
			if toFile {
				c.Output = filepath.Join(dir, "out", "eval")
			}
			if err := c.Run(base); err != nil {
				return err.Error()
			}
			var s string
			want := col == "true" || col == "auto"
			if toFile {
				b, _ := os.ReadFile(c.Output)
				s = string(b)
				want = col == "true"
			} else {
				s = read()
			}
			if s == "" {
				return "there is no output"
			}
			if strings.Contains(s, "\x1b[") != want {
				return fmt.Sprintf("coloured: %v", !want)
			}
			return ""
		})
		done()
	}
}
