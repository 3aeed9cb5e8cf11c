package ddl

import (
	"context"
	"fmt"
	"io"
	"regexp"
	"strings"
	"testing"
)

var c13Numbered = regexp.MustCompile(`(\$|@p)(\d+)`)

// placeholders counts the placeholders of a statement and reports whether the
// numbered ones are 1, 2, 3, ...
func c13Placeholders(dialect, query string) (n int, ordered bool) {
	if dialect != DialectPostgres && dialect != DialectSQLServer {
		return strings.Count(query, "?"), true
	}
	ordered = true
	for i, m := range c13Numbered.FindAllStringSubmatch(query, -1) {
		n++
		ordered = ordered && m[2] == fmt.Sprint(i+1)
	}
	return n, ordered
}

// TestReplay inserts many numbers of rows with many settings and compares the
// statements received by the database with the rows supplied.
func TestReplay(t *testing.T) {
	limits := map[string]int{DialectSQLite: 32766, DialectPostgres: 65535, DialectMySQL: 65535, DialectSQLServer: 2100, "": 1 << 30}
	for _, dialect := range []string{DialectSQLite, DialectPostgres, DialectMySQL, DialectSQLServer, ""} {
		for _, batchsize := range []int{-1, 0, 1, 2, 3, 7, 25, 26, 1000} {
			for _, ncols := range []int{1, 2, 3, 700, 1051, 2100} {
				for _, nrows := range []int{0, 1, 2, 3, 6, 7, 8, 50, 51, 501} {
					if ncols > 3 && (nrows > 8 || batchsize <= 0 || batchsize > 25) {
						continue
					}
					for keys := 0; keys < 5; keys++ {
						if keys > 0 && ncols > 3 {
							continue
						}
						c13Run(t, dialect, batchsize, ncols, nrows, keys, limits[dialect])
						if t.Failed() {
							return
						}
					}
				}
			}
		}
	}
	// Rows that leave no room for a second one.
	for dialect, n := range map[string]int{DialectSQLite: 20000, DialectMySQL: 65535, DialectSQLServer: 1500} {
		c13Run(t, dialect, 10, n, 2, 0, limits[dialect])
	}
	c13Run(t, DialectMySQL, 1<<20, 2, 33000, 0, limits[DialectMySQL])
	c13Run(t, DialectPostgres, 1<<20, 2, 33000, 0, limits[DialectPostgres])
	c13Run(t, DialectSQLite, 1<<20, 1, 32800, 0, limits[DialectSQLite])
}

func c13Run(t *testing.T, dialect string, batchsize, ncols, nrows, keys, limit int) {
	what := fmt.Sprintf("dialect=%q batchsize=%d columns=%d rows=%d keys=%d", dialect, batchsize, ncols, nrows, keys)
	r, db := newRec("none")
	defer db.Close()
	bi := &BatchInsert{Batchsize: batchsize, Dialect: dialect, TableName: "tbl"}
	for i := 0; i < ncols; i++ {
		bi.Columns = append(bi.Columns, fmt.Sprintf("c%d", i))
	}
	switch keys {
	case 1:
		bi.KeyColumns = []string{"c0"}
		bi.IdentityColumns = []string{"c0", "none"}
	case 2:
		bi.KeyColumns = bi.Columns
	case 3:
		bi.KeyColumns = []string{"none", "c0"}
	case 4:
		bi.KeyColumns = []string{"c0", "c0", "c0", "c0", "c0"}
	}
	var supplied []any
	guard(t, what, func() {
		_, err := bi.ExecContext(context.Background(), db, func(row []any) error {
			if len(row) != ncols {
				t.Fatalf("%s: row of %d values", what, len(row))
			}
			if len(supplied) == nrows*ncols {
				return io.EOF
			}
			for i := range row {
				row[i] = int64(len(supplied))
				supplied = append(supplied, row[i])
			}
			return nil
		})
		if err != nil {
			t.Fatalf("%s: %v", what, err)
		}
	})
	if t.Failed() {
		return
	}
	var sent, updated []any
	for _, e := range r.execs() {
		n, ordered := c13Placeholders(dialect, e.SQL)
		if n != len(e.Args) || !ordered {
			t.Fatalf("%s: %d values for %s", what, len(e.Args), e)
		}
		switch {
		case strings.HasPrefix(e.SQL, "INSERT INTO "):
			sent = append(sent, e.Args...)
		case strings.HasPrefix(e.SQL, "UPDATE "):
			updated = append(updated, e.Args...)
		default:
			continue
		}
		if len(e.Args) == 0 || len(e.Args)%ncols != 0 {
			t.Fatalf("%s: %d values in a statement", what, len(e.Args))
		}
		if ncols <= limit && len(e.Args) > limit {
			t.Fatalf("%s: %d values in a statement", what, len(e.Args))
		}
		if batchsize > 0 && len(e.Args) > batchsize*ncols {
			t.Fatalf("%s: %d values in a statement", what, len(e.Args))
		}
	}
	check := func(kind string, got []any) {
		if len(got) != len(supplied) {
			t.Fatalf("%s: %d values %s, %d supplied", what, len(got), kind, len(supplied))
		}
		for i := range got {
			if got[i] != supplied[i] {
				t.Fatalf("%s: value %d %s is %v", what, i, kind, got[i])
			}
		}
	}
	check("inserted", sent)
	if updated != nil {
		check("updated", updated)
	}
}
