package main

// column(q, "n.nspname"): where among the things an SQL query selects that one
// is (-1: nowhere; compared without aliases and schema pg_catalog, with single
// spaces; a sub-select is named by what it selects); sqlparam(q, "n.nspname"): the number of the parameter
// the query compares that column with (0: none). Both need a constant query.

import (
	"regexp"
	"strconv"
	"strings"
)

var sqlToken = regexp.MustCompile(`--[^\n]*|"(?:[^"]|"")*"|'(?:[^']|'')*'|\$\d+|[A-Za-z_][A-Za-z0-9_$]*|\d+|::|[<>=!~]+|\s+|.`)

func sqlTokens(q string) []string {
	var r []string
	for _, t := range sqlToken.FindAllString(q, -1) {
		if strings.TrimSpace(t) == "" || strings.HasPrefix(t, "--") {
			continue
		}
		if c := t[0]; c == '_' || c >= 'A' && c <= 'Z' {
			t = strings.ToLower(t)
		}
		r = append(r, t)
	}
	return r
}

func sqlSelected(q string) []string {
	toks := sqlTokens(q)
	if len(toks) == 0 || toks[0] != "select" {
		return nil
	}
	var items [][]string
	cur := []string{}
	depth := 0
	for _, t := range toks[1:] {
		if depth == 0 && (t == "," || t == "from" || t == ";") {
			items = append(items, cur)
			cur = nil
			if t != "," {
				depth = -1
				break
			}
			continue
		}
		if t == "(" {
			depth++
		}
		if t == ")" {
			depth--
		}
		cur = append(cur, t)
	}
	if depth >= 0 {
		items = append(items, cur)
	}
	var r []string
	for _, it := range items {
		n := len(it)
		if n >= 2 && strings.HasPrefix(it[n-1], `"`) && it[n-2] != "." {
			it = it[:n-1]
			n--
		}
		if n >= 3 && it[n-2] == "as" {
			it = it[:n-2]
			n -= 2
		} else if n >= 2 && it[n-1] == "as" {
			it = it[:n-1]
		}
		s := strings.Join(it, " ")
		s = strings.ReplaceAll(s, " . ", ".")
		s = strings.ReplaceAll(s, "pg_catalog.", "")
		s = strings.ReplaceAll(s, " (", "(")
		s = strings.ReplaceAll(s, "( ", "(")
		s = strings.ReplaceAll(s, " )", ")")
		s = strings.ReplaceAll(s, " ,", ",")
		r = append(r, s)
	}
	return r
}

func sqlParam(q, col string) int64 {
	toks := sqlTokens(q)
	want := sqlTokens(col)
	for i := 0; i+len(want)+1 < len(toks); i++ {
		if strings.Join(toks[i:i+len(want)], " ") != strings.Join(want, " ") || toks[i+len(want)] != "=" {
			continue
		}
		if p := toks[i+len(want)+1]; strings.HasPrefix(p, "$") {
			n, _ := strconv.ParseInt(p[1:], 10, 64)
			return n
		}
	}
	return 0
}

func sqlColumn(q, name string) int64 {
	want := sqlSelected("select " + name)[0]
	for i, it := range sqlSelected(q) {
		if it == want || strings.HasPrefix(it, "(select "+want+" from ") {
			return int64(i)
		}
	}
	return -1
}

func columnTerm(q *Term, name *Term) *Term {
	if q.Op == "strlit" && name.Op == "strlit" {
		return Int(sqlColumn(q.Name, name.Name))
	}
	return UF("sql:column", "Int", q, name)
}

func sqlParamTerm(q *Term, col *Term) *Term {
	if q.Op == "strlit" && col.Op == "strlit" {
		return Int(sqlParam(q.Name, col.Name))
	}
	return UF("sql:param", "Int", q, col)
}

// sqlfrom(q): what follows the last FROM of a query
func sqlFromTerm(q *Term) *Term {
	parts := catParts(q)
	for k := len(parts) - 1; k >= 0; k-- {
		if parts[k].Op != "strlit" {
			continue
		}
		i := strings.LastIndex(strings.ToUpper(parts[k].Name), "FROM ")
		if i < 0 {
			continue
		}
		r := StrLit(strings.TrimLeft(parts[k].Name[i+5:], " \t\n"))
		for _, x := range parts[k+1:] {
			r = sCat(r, x)
		}
		return r
	}
	return UF("sql:from", "Str", q)
}
