package commands_test

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/sjansen/pgutil/internal/commands"
	"github.com/sjansen/pgutil/internal/verifkit"
)

func TestVerifReplayP24(t *testing.T) {
	k := verifkit.New(t)
	defer k.Done()
	file := filepath.Join(verifScratch(t), "p24", "book.json")
	for k.More() {
		b := verifRandomBook(k)
		text := b.json()
		verifWrite(t, file, text)
		splines := []string{"", "ortho", "a b"}[k.R.Intn(3)]
		k.Do("listing of "+text, func() string {
			var out, errs verifWriter
			if err := (&commands.RunBookListCmd{File: file}).Run(verifBase(&out, &errs)); err != nil {
				return "failed: " + err.Error()
			}
			// names can contain line breaks
			got := out.String()
			if !strings.HasPrefix(got, "Tasks & Targets:\n") {
				return "the listing starts with " + got
			}
			var ids []string
			long := 0
			for id := range b.tasks {
				ids = append(ids, id)
				if len(id) > long {
					long = len(id)
				}
			}
			sort.Strings(ids)
			want := "Tasks & Targets:\n"
			for _, id := range ids {
				want += "  " + id + " " + b.tasks[id].target + "\n"
			}
			if a, w := verifSquash(got), verifSquash(want); a != w {
				return fmt.Sprintf("the listing is %q, should be like %q", got, want)
			}
			if errs.Len() > 0 {
				return "there is error output"
			}
			return ""
		})
		k.Do("graph of "+text, func() string {
			var out, errs verifWriter
			if err := (&commands.RunBookDotCmd{File: file, Splines: splines}).Run(verifBase(&out, &errs)); err != nil {
				return "failed: " + err.Error()
			}
			return b.checkGraph(out.String())
		})
	}
}

// verifSquash joins runs of blanks: how wide the first column is does not matter.
func verifSquash(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		lines[i] = strings.Join(strings.FieldsFunc(l, func(r rune) bool { return r == ' ' }), " ")
	}
	return strings.Join(lines, "\n")
}
