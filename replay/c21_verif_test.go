package ddl

import (
	"bytes"
	"database/sql/driver"
	"fmt"
	"regexp"
	"strings"
	"testing"
)

var (
	c21From = regexp.MustCompile(`(?m)^FROM\s+(\(|[\w.]+(?: AS \w+)?)`)
	c21Stmt = regexp.MustCompile(`(?m)^(DROP|ALTER|TRUNCATE|DELETE)\b[^;]*;`)
	c21List = regexp.MustCompile(`(NOT )?IN \(((?:'[^']*',? *)+)\)`)
	c21Kind = map[string]string{
		"pg_views": "view", "information_schema.views": "view", "sys.objects AS views": "view",
		"(": "fk", "information_schema.table_constraints": "fk", "sys.indexes": "fk",
		"pg_class AS tables": "table", "information_schema.tables": "table", "sys.objects AS tables": "table",
		"pg_proc": "routine", "information_schema.routines": "routine", "sys.objects AS routines": "routine",
		"pg_enum": "enum", "pg_type": "domain", "pg_extension": "extension",
	}
	c21Words = map[string]string{"view": "DROP VIEW IF EXISTS ", "table": "DROP TABLE IF EXISTS ", "enum": "DROP TYPE IF EXISTS ", "domain": "DROP DOMAIN IF EXISTS ", "extension": "DROP EXTENSION IF EXISTS "}
	c21Rank  = map[string]int{"view": 0, "fk": 1, "table": 2, "routine": 3, "enum": 4, "domain": 4, "extension": 4}
)

// object is one object of a made-up database.
type c21Object struct {
	kind, schema, name, on string
	variant                bool // materialized view, procedure
}

func (o c21Object) row(dialect string) []driver.Value {
	s, n := o.schema, o.name
	pg := dialect == DialectPostgres
	switch o.kind {
	case "view":
		if pg {
			return []driver.Value{s, n, o.variant, "SELECT 1", "", "", "", ""}
		}
		return []driver.Value{s, n, "SELECT 1", "", ""}
	case "fk":
		row := []driver.Value{s, o.on, n, FOREIGN_KEY, "", s, "t9", "", "", "", "", ""}
		switch dialect {
		case DialectPostgres:
			row[4], row[7] = []byte("[]"), []byte("[]")
			return append(row, []byte("[]"), "", "", false, false, false)
		case DialectSQLServer:
			return append(row[:11], false, false)
		}
		return row
	case "table":
		if dialect != DialectSQLServer {
			return []driver.Value{s, n, ""}
		}
		return []driver.Value{s, n}
	case "routine":
		typ := "FUNCTION"
		if o.variant {
			typ = "PROCEDURE"
		}
		switch dialect {
		case DialectPostgres:
			return []driver.Value{s, n, typ, "", "", "", ""}
		case DialectMySQL:
			return []driver.Value{s, n, typ, "", "", "", "", "", false, "", ""}
		}
		return []driver.Value{s, n, typ, ""}
	case "enum":
		return []driver.Value{s, n, []byte("[]"), ""}
	case "domain":
		return []driver.Value{s, n, "int", "", false, "", []byte("[]"), []byte("[]"), ""}
	}
	return []driver.Value{n, "1.0"}
}

// statement is the statement that drops the object, without CASCADE.
func (o c21Object) statement(dialect, current string) string {
	name := func(s string) string {
		q := QuoteIdentifier(dialect, s)
		if o.schema != "" && o.schema != current && o.kind != "extension" {
			q = QuoteIdentifier(dialect, o.schema) + "." + q
		}
		return q
	}
	switch {
	case o.kind == "fk":
		return "ALTER TABLE " + name(o.on) + " DROP CONSTRAINT " + QuoteIdentifier(dialect, o.name)
	case o.kind == "routine" && o.variant:
		return "DROP PROCEDURE IF EXISTS " + name(o.name)
	case o.kind == "routine":
		return "DROP FUNCTION IF EXISTS " + name(o.name)
	case o.kind == "view" && o.variant:
		return "DROP MATERIALIZED VIEW IF EXISTS " + name(o.name)
	}
	return c21Words[o.kind] + name(o.name)
}

// TestReplay wipes made-up databases and compares the statements received
// with the objects reported.
func TestReplay(t *testing.T) {
	kinds := []string{"view", "fk", "table", "routine", "enum", "domain", "extension"}
	for _, dialect := range []string{DialectPostgres, DialectMySQL, DialectSQLServer} {
		for _, n := range []int{2, 1, 3, 0} {
			for mask := 1<<len(kinds) - 1; mask >= 0; mask-- {
				if mask != 1<<len(kinds)-1 && mask&(mask-1) != 0 {
					continue // every kind, one kind, none
				}
				var objects []c21Object
				for k, kind := range kinds {
					if mask&(1<<k) == 0 || kind > "d" && kind < "f" && dialect != DialectPostgres || kind == "domain" && dialect != DialectPostgres {
						continue
					}
					for i := 0; i < n; i++ {
						for _, schema := range []string{"public", "other", "Sales"} {
							o := c21Object{kind: kind, schema: schema, name: fmt.Sprintf("%s_%s%d", kind, schema, i), on: fmt.Sprintf("t%d", i), variant: i%2 == 1 && (kind == "routine" || dialect == DialectPostgres)}
							if kind == "table" && i == 1 {
								o.name = "My Table"
							}
							if kind == "table" && i == 2 {
								o.name = "sqddl_history"
							}
							objects = append(objects, o)
						}
					}
				}
				if dialect == DialectPostgres {
					objects = append(objects, c21Object{kind: "extension", name: "plpgsql"})
				}
				c21Run(t, dialect, objects, true)
				c21Run(t, dialect, objects, false)
				if t.Failed() {
					return
				}
			}
		}
	}
	for _, stmts := range [][]string{nil, {"CREATE TABLE t1 (a INT)"}, {"CREATE VIEW v1 AS SELECT 1 AS a"}, sqliteSchema,
		{"CREATE TABLE a (id INTEGER PRIMARY KEY, b INT REFERENCES b (id))", "CREATE TABLE b (id INTEGER PRIMARY KEY, a INT REFERENCES a (id))", "INSERT INTO a VALUES (1, NULL)", "INSERT INTO b VALUES (1, 1)", "UPDATE a SET b = 1", `CREATE TABLE "my table" (x INT)`}} {
		c21SQLite(t, stmts)
	}
}

// c21Hidden reports whether a list in the query leaves the object out. Lists
// that name none of the objects' names and schemas are not about them.
func c21Hidden(q string, o c21Object, objects []c21Object) bool {
	for _, m := range c21List.FindAllStringSubmatch(q, -1) {
		about := false
		for _, p := range objects {
			about = about || strings.Contains(m[2], "'"+p.schema+"'") || strings.Contains(m[2], "'"+p.name+"'")
		}
		named := strings.Contains(m[2], "'"+o.schema+"'") || strings.Contains(m[2], "'"+o.name+"'")
		if about && named == (m[1] != "") {
			return true
		}
	}
	return false
}

func c21Run(t *testing.T, dialect string, objects []c21Object, dry bool) {
	r, db := newRec(dialect)
	defer db.Close()
	r.answer = func(q string, args []any) ([]string, [][]driver.Value) {
		m := c21From.FindStringSubmatch(q)
		if m == nil || c21Kind[m[1]] == "" {
			return cannedAnswer(q, args)
		}
		var data [][]driver.Value
		n := 1
		for _, o := range objects {
			if o.kind != c21Kind[m[1]] || c21Hidden(q, o, objects) {
				continue
			}
			row := o.row(dialect)
			data, n = append(data, row), len(row)
		}
		return strings.Split(strings.Repeat("c ", n-1)+"c", " "), data
	}
	var out bytes.Buffer
	cmd := WipeCmd{DB: db, Dialect: dialect, DryRun: dry, Stdout: &out}
	if err := cmd.Run(); err != nil {
		t.Errorf("%s, %+v: %v", dialect, objects, err)
		return
	}
	var texts []string
	for _, e := range r.execs() {
		texts = append(texts, e.SQL)
	}
	if dry {
		if len(texts) > 0 {
			t.Errorf("%s: a dry run executed %q", dialect, texts)
		}
		texts = []string{out.String()}
	}
	if len(texts) > 1 {
		t.Errorf("%s: %d executions: %q", dialect, len(texts), texts)
	}
	var got []string
	for _, s := range c21Stmt.FindAllString(strings.Join(texts, ""), -1) {
		got = append(got, strings.TrimSuffix(strings.TrimSuffix(s, ";"), " CASCADE"))
	}
	want := map[string]int{}
	for _, o := range objects {
		if o.name != "plpgsql" {
			want[o.statement(dialect, "public")] = c21Rank[o.kind]
		}
	}
	last := 0
	for _, s := range got {
		rank, ok := want[s]
		if !ok {
			t.Errorf("%s, dry run %v: unexpected or repeated %q, objects %+v", dialect, dry, s, objects)
			return
		}
		if rank < last {
			t.Errorf("%s, dry run %v: %q comes too late in %q", dialect, dry, s, got)
			return
		}
		last = rank
		delete(want, s)
	}
	if len(want) > 0 {
		t.Errorf("%s, dry run %v: not dropped: %v, statements %q", dialect, dry, want, got)
	}
}

func c21SQLite(t *testing.T, stmts []string) {
	_, db := newRec(DialectSQLite)
	defer db.Close()
	for _, s := range stmts {
		if _, err := db.Exec(s); err != nil {
			t.Fatal(err)
		}
	}
	left := func() (n int) {
		if err := db.QueryRow("SELECT COUNT(*) FROM sqlite_schema WHERE type IN ('table', 'view') AND name NOT LIKE 'sqlite_%'").Scan(&n); err != nil {
			t.Fatal(err)
		}
		return n
	}
	before := left()
	var out bytes.Buffer
	cmd := WipeCmd{DB: db, Dialect: DialectSQLite, DryRun: true, Stdout: &out}
	if err := cmd.Run(); err != nil {
		t.Errorf("sqlite, %q: %v", stmts, err)
	}
	if n := left(); n != before {
		t.Errorf("sqlite: a dry run dropped %d objects of %q", before-n, stmts)
	}
	if n := len(c21Stmt.FindAllString(out.String(), -1)); n != before {
		t.Errorf("sqlite: a dry run shows %d statements for %d objects of %q", n, before, stmts)
	}
	cmd = WipeCmd{DB: db, Dialect: DialectSQLite, Stdout: &out}
	if err := cmd.Run(); err != nil {
		t.Errorf("sqlite, %q: %v", stmts, err)
	}
	if n := left(); n != 0 {
		t.Errorf("sqlite: %d objects of %q left after a wipe", n, stmts)
	}
}
