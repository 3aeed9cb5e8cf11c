package ddl

import (
	"io"
	"os"
	"path/filepath"
	"testing"
)

// TestReplay runs every command that has a dry run under each combination of
// its other options and looks for effects.
func TestReplay(t *testing.T) {
	for _, dialect := range allDialects {
		for m := 0; m < 32; m++ {
			drop, accept, tables, failing := m&1 > 0, m&2 > 0, m&4 > 0, m&8 > 0
			cmds := map[string]func(e *env) error{
				"generate": func(e *env) error {
					c := &GenerateCmd{Dialect: dialect, SrcCatalog: &Catalog{Dialect: dialect}, DirFS: e.fsys, Filenames: []string{"tables.go"}, OutputDir: filepath.Join(e.dir, []string{"", "new"}[m>>4]), Stdout: e.out, Stderr: io.Discard, DropObjects: drop, AcceptWarnings: accept, DryRun: true}
					if tables {
						c.SrcCatalog = dryCatalog(dialect)
					}
					return c.Run()
				},
				"automigrate": func(e *env) error {
					c := &AutomigrateCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Filenames: []string{"tables.go"}, Stdout: e.out, Stderr: io.Discard, DropObjects: drop, AcceptWarnings: accept, DryRun: true}
					if tables {
						c.Filenames, c.DestCatalog = nil, dryCatalog(dialect)
					}
					return c.Run()
				},
				"wipe": func(e *env) error {
					return (&WipeCmd{DB: e.db, Dialect: dialect, Stdout: e.out, DryRun: true}).Run()
				},
			}
			for name, run := range cmds {
				s := scenario{name: name, dialect: dialect, files: map[string]string{"tables.go": structsGo}}
				if dialect == DialectSQLite {
					s.setup = sqliteSchema
				}
				e := s.newEnv(t)
				if failing {
					e.out.failAt = 1
				}
				guard(t, name, func() { run(e) })
				for _, ev := range e.r.log() {
					switch ev.Kind {
					case "exec", "stmtexec", "prepare", "begin", "commit":
						t.Errorf("%s %s (drop-objects %v, accept-warnings %v): the dry run sends %s", dialect, name, drop, accept, ev)
					}
				}
				for f := range readTree(e.dir) {
					t.Errorf("%s %s (drop-objects %v, accept-warnings %v): the dry run creates file %s", dialect, name, drop, accept, f)
				}
				if entries, _ := os.ReadDir(e.dir); len(entries) > 0 {
					t.Errorf("%s %s (drop-objects %v, accept-warnings %v): the dry run creates %s", dialect, name, drop, accept, entries[0].Name())
				}
				e.close()
			}
		}
	}
}

func dryCatalog(dialect string) *Catalog {
	return &Catalog{Dialect: dialect, Schemas: []Schema{{Tables: []Table{{TableName: "zz",
		Columns: []Column{{TableName: "zz", ColumnName: "id", ColumnType: "INT", IsNotNull: true}}}}}}}
}
