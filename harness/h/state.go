package h

import (
	"database/sql"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

var when = regexp.MustCompile(`\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d[^" ]*( [+-]\d{4} [A-Z]+)?`)

// State is everything a database holds, but for times, versions and empty memory buckets.
func State(c *C, db *sql.DB, skip string) (out []string) {
	c.Must(Calm(func() (err error) { out, err = rowsOf(db, skip); return }), "reading the database")
	return
}

func rowsOf(db *sql.DB, skip string) ([]string, error) {
	rows, err := db.Query(`SELECT name FROM sqlite_master WHERE type = 'table' AND name NOT LIKE 'sqlite_%' AND name NOT LIKE '%\_fts\_%' ESCAPE '\' AND name NOT LIKE '%snapshot%'`)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var tables []string
	for rows.Next() {
		var n string
		if err := rows.Scan(&n); err != nil {
			return nil, err
		}
		tables = append(tables, n)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	rows.Close()
	var out []string
	for _, t := range tables {
		if skip != "" && strings.HasPrefix(t, skip) {
			continue
		}
		where := ""
		if t == "sessions" {
			where = " WHERE id IN (SELECT session_id FROM messages) OR CAST(COALESCE(metadata, '') AS TEXT) NOT LIKE '%memory_bucket%'"
		}
		rows, err := db.Query(`SELECT * FROM "` + t + `"` + where)
		if err != nil {
			return nil, err
		}
		defer rows.Close()
		cols, err := rows.Columns()
		if err != nil {
			return nil, err
		}
		for rows.Next() {
			vals := make([]any, len(cols))
			ptrs := make([]any, len(cols))
			for i := range vals {
				ptrs[i] = &vals[i]
			}
			if err := rows.Scan(ptrs...); err != nil {
				return nil, err
			}
			line := t
			for i, n := range cols {
				switch n {
				case "created_at", "updated_at", "version":
					continue
				}
				v := vals[i]
				if b, ok := v.([]byte); ok && n != "vector" {
					v = string(b)
				}
				line += fmt.Sprintf(" %s=%v", n, v)
			}
			out = append(out, when.ReplaceAllString(line, "T"))
		}
		if err := rows.Err(); err != nil {
			return nil, err
		}
		rows.Close()
	}
	sort.Strings(out)
	return out, nil
}

// Diff tells what only one of two states has.
func Diff(a, b []string) string {
	in := map[string]int{}
	for _, x := range a {
		in[x]++
	}
	for _, x := range b {
		in[x]--
	}
	var out []string
	for x, n := range in {
		if n > 0 {
			out = append(out, fmt.Sprintf("interrupted has %s", x))
		} else if n < 0 {
			out = append(out, fmt.Sprintf("undisturbed has %s", x))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
