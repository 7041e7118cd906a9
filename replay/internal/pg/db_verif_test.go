package pg_test

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/sjansen/pgutil/internal/ddl"
	"github.com/sjansen/pgutil/internal/logger"
	"github.com/sjansen/pgutil/internal/pg"
	"github.com/sjansen/pgutil/internal/verifpg"
)

//verif:shared

func verifOpen(t *testing.T, s *verifpg.Server) *pg.Conn {
	c, err := pg.New(&pg.Options{Log: logger.Discard(), Host: "127.0.0.1", Port: s.Port, SSLMode: "disable", Username: "al", Database: "db"})
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func verifJSON(x interface{}) string {
	b, _ := json.Marshal(x)
	return string(b)
}

// verifSame compares values, an empty list being the same as none.
func verifSame(got, want interface{}) bool { return verifJSON(verifNorm(got)) == verifJSON(verifNorm(want)) }

func verifNorm(x interface{}) interface{} {
	v := reflect.ValueOf(x)
	if v.Kind() == reflect.Slice && v.Len() == 0 {
		return []int{}
	}
	if db, ok := x.(*ddl.Database); ok && db != nil {
		return fmt.Sprint(verifJSON(verifNorm(db.Schemas)), verifJSON(verifNorm(db.Functions)), verifJSON(verifNorm(db.Sequences)), verifTables(db.Tables), verifJSON(verifNorm(db.Indexes)), verifJSON(verifNorm(db.Triggers)), verifJSON(db.Parameters))
	}
	return x
}

func verifTables(ts []*ddl.Table) string {
	r := ""
	for _, t := range ts {
		if t == nil {
			r += "nil"
			continue
		}
		r += fmt.Sprintf("[%q %q %q %q %s %s %s %s]", t.Schema, t.Name, t.Owner, t.Comment, verifJSON(verifNorm(t.Columns)), verifJSON(verifNorm(t.Checks)), verifJSON(verifNorm(t.ForeignKeys)), verifJSON(t.StorageParameters))
	}
	return r
}
