package ddl

import (
	"database/sql"
	"database/sql/driver"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"
)

// openIn counts the open files below dir.
func openIn(dir string) (names []string) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		target, err := os.Readlink("/proc/self/fd/" + fd.Name())
		if err == nil && strings.HasPrefix(target, dir+"/") {
			names = append(names, filepath.Base(target))
		}
	}
	return names
}

// TestReplay makes each operation of each scenario fail in turn and counts what
// stays open. Each command is also run as the owner of its database handle.
func TestReplay(t *testing.T) {
	eachFault(t, nil, func(s scenario, e *env, fault string, err error) {
		if fault == "" {
			fault = "nothing"
		}
		for _, kind := range []string{"rows", "stmt"} {
			if n := e.r.left(kind); n != 0 {
				t.Errorf("%s: %s failed: %d %s left open\n%s", s.name, fault, n, kind, lines(e.r.log()))
			}
		}
		// A cancelled transaction gives its connection back in the background.
		n := e.db.Stats().InUse
		for i := 0; n != 0 && i < 50; i++ {
			time.Sleep(2 * time.Millisecond)
			n = e.db.Stats().InUse
		}
		if n != 0 {
			t.Errorf("%s: %s failed: %d connection(s) not given back\n%s", s.name, fault, n, lines(e.r.log()))
		}
		e.fsys.mu.Lock()
		n = e.fsys.open
		e.fsys.mu.Unlock()
		if n != 0 {
			t.Errorf("%s: %s failed: %d input file(s) left open", s.name, fault, n)
		}
		if names := openIn(e.dir); len(names) > 0 {
			t.Errorf("%s: %s failed: left open: %v", s.name, fault, names)
		}
	})
	// Answers that cannot be scanned, files that cannot be examined.
	for _, s := range scenarios() {
		for _, columns := range []int{1, 3, 30} {
			e := s.newEnv(t)
			e.fsys.noStat = columns == 1
			if s.dialect != DialectSQLite {
				e.r.answer = func(q string, args []any) ([]string, [][]driver.Value) {
					row := make([]driver.Value, columns)
					return make([]string, columns), [][]driver.Value{row, row}
				}
			}
			guard(t, s.name, func() { s.run(e) })
			for _, kind := range []string{"rows", "stmt"} {
				if n := e.r.left(kind); n != 0 {
					t.Errorf("%s: the answer has %d NULL columns: %d %s left open\n%s", s.name, columns, n, kind, lines(e.r.log()))
				}
			}
			if n := e.fsys.open; n != 0 {
				t.Errorf("%s: the answer has %d NULL columns, examining files fails: %v: %d input file(s) left open", s.name, columns, e.fsys.noStat, n)
			}
			e.close()
		}
	}
	for _, name := range []string{"a.json", "a.go", "a.zip", "a.tgz", "a.tar.gz", "dir"} {
		for _, noStat := range []bool{false, true} {
			for fail := 0; fail < 4; fail++ {
				f := &faultFS{FS: mapFS(map[string]string{name: "x", "dir/schema.json": "x"}), noStat: noStat, failAt: fail}
				guard(t, name, func() { writeCatalog(&Catalog{}, f, "h", name) })
				if f.open != 0 {
					t.Errorf("reading the catalog from %s (examining files fails: %v, failing file operation %d): %d file(s) left open", name, noStat, fail, f.open)
				}
			}
		}
	}
	// Output files that cannot be written.
	for _, s := range scenarios() {
		s := s
		e := s.newEnv(t)
		guard(t, s.name, func() { s.run(e) })
		out := readTree(e.dir)
		e.close()
		for name, text := range out {
			if text == "" {
				continue
			}
			e := s.newEnv(t)
			path := filepath.Join(e.dir, name)
			os.MkdirAll(filepath.Dir(path), 0755)
			os.Remove(path)
			if os.Symlink("/dev/full", path) != nil {
				e.close()
				continue
			}
			guard(t, s.name, func() { s.run(e) })
			full := 0
			fds, _ := os.ReadDir("/proc/self/fd")
			for _, fd := range fds {
				if target, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && target == "/dev/full" {
					full++
				}
			}
			if names := openIn(e.dir); full > 0 || len(names) > 0 {
				t.Errorf("%s: the disk is full when %s is written: %d file(s) left open %v", s.name, name, full, names)
			}
			e.close()
		}
	}
	// Commands that own their database handle.
	files := map[string]string{"01_a.sql": "CREATE TABLE t1 (id INT);", "a.csv": "id\n1\n", "tables.go": structsGo, "dump/schema.sql": "CREATE TABLE t2 (id INT);"}
	for _, d := range allDialects {
		d := d
		for name, run := range map[string]func(db *sql.DB, e *env) error{
			"migrate": func(db *sql.DB, e *env) error {
				return (&MigrateCmd{db: "x", DB: db, Dialect: d, DirFS: e.fsys, Stderr: io.Discard}).Run()
			},
			"touch": func(db *sql.DB, e *env) error {
				return (&TouchCmd{db: "x", DB: db, Dialect: d, DirFS: e.fsys, Stderr: io.Discard}).Run()
			},
			"ls": func(db *sql.DB, e *env) error {
				return (&LsCmd{db: "x", DB: db, Dialect: d, DirFS: e.fsys, Stdout: e.out}).Run()
			},
			"mv": func(db *sql.DB, e *env) error {
				return (&MvCmd{db: "x", DB: db, Dialect: d, SrcFilename: "a", DestFilename: "b", Stderr: io.Discard}).Run()
			},
			"rm": func(db *sql.DB, e *env) error {
				return (&RmCmd{db: "x", DB: db, Dialect: d, Filenames: []string{"a"}, Stderr: io.Discard}).Run()
			},
			"tables": func(db *sql.DB, e *env) error {
				return (&TablesCmd{db: "x", DB: db, Dialect: d, Stdout: e.out}).Run()
			},
			"views": func(db *sql.DB, e *env) error {
				return (&ViewsCmd{db: "x", DB: db, Dialect: d, Stdout: e.out}).Run()
			},
			"wipe": func(db *sql.DB, e *env) error {
				return (&WipeCmd{db: "x", DB: db, Dialect: d, Stdout: e.out, DryRun: true}).Run()
			},
			"dump": func(db *sql.DB, e *env) error {
				return (&DumpCmd{db: "x", DB: db, Dialect: d, OutputDir: e.dir, Stderr: io.Discard}).Run()
			},
			"load": func(db *sql.DB, e *env) error {
				return (&LoadCmd{db: "x", DB: db, Dialect: d, DirFS: e.fsys, Filenames: []string{"dump"}, Stderr: io.Discard}).Run()
			},
			"automigrate": func(db *sql.DB, e *env) error {
				return (&AutomigrateCmd{db: "x", DB: db, Dialect: d, DirFS: e.fsys, Filenames: []string{"tables.go"}, Stdout: e.out, Stderr: io.Discard}).Run()
			},
		} {
			for fail := 0; fail < 3; fail++ {
				e := scenario{name: name, dialect: d, files: files}.newEnv(t)
				e.r.failAt = fail
				guard(t, name, func() { run(e.db, e) })
				e.r.failAt = 0
				if err := e.db.Ping(); err == nil || !strings.Contains(err.Error(), "database is closed") {
					t.Errorf("%s %s: the command leaves its own database handle open (failing call %d)", d, name, fail)
				}
				e.close()
			}
		}
	}
	// Commands that cannot be made close the handle again.
	dir := tmpDir(t)
	for _, args := range [][]string{{"-lock-timeout", "x"}, {"-max-delay", "x"}, {"-base-delay", "x"}} {
		db := filepath.Join(dir, "own.db")
		before := sqlOpeners()
		MigrateCommand(append([]string{"-db", db, "-dir", dir}, args...)...)
		AutomigrateCommand(append([]string{"-db", db}, args...)...)
		if n := sqlOpeners(); n > before {
			t.Errorf("%v: %d database handle(s) left open by a command that could not be made", args, n-before)
		}
	}
	before := sqlOpeners()
	writeCatalog(&Catalog{}, os.DirFS(dir), "h", filepath.Join(dir, "cat.db"))
	if n := sqlOpeners(); n > before {
		t.Errorf("reading the catalog of a database leaves %d database handle(s) open", n-before)
	}
}

// sqlOpeners counts open database handles: each has a goroutine that opens
// connections.
func sqlOpeners() (n int) {
	for i := 0; i < 100; i++ {
		buf := make([]byte, 1<<20)
		n = strings.Count(string(buf[:runtime.Stack(buf, true)]), "connectionOpener(")
		if n == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	return n
}
