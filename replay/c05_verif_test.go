package ddl

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"
)

// TestReplay makes calls of migration runs fail and compares the history with
// what the scripts have left in the database.
func TestReplay(t *testing.T) {
	for _, dialect := range allDialects {
		for _, annotate := range []func(error, string) error{nil, func(err error, s string) error { return err }, func(err error, s string) error { return nil }} {
			d := Driver{Dialect: dialect, DriverName: "verifrec", AnnotateError: annotate}
			withDriver(dialect, d, func() { records(t, dialect) })
		}
	}
	rnd := rand.New(rand.NewSource(1))
	pool := []string{"01.sql", "02.tx.sql", "03.txoff.sql", "04.sql", "05.sql", "06.txoff.sql", "repeatable/a.sql", "repeatable/x/c.txoff.sql"}
	files := map[string]string{}
	for _, name := range pool {
		files[name] = "INSERT INTO mark (name) VALUES ('" + name + "');"
	}
	for round := 0; round < 1500; round++ {
		skip := round%5 == 0
		var names []string
		for _, name := range pool {
			if rnd.Intn(3) > 0 {
				names = append(names, name)
			}
		}
		if len(names) == 0 {
			continue
		}
		setup := []string{historyDDL, "CREATE TABLE mark (name TEXT)"}
		for _, name := range names {
			if rnd.Intn(4) == 0 {
				setup = append(setup, fmt.Sprintf("INSERT INTO sqddl_history VALUES ('%s', 'old', NULL, NULL, 0)", name))
			}
		}
		where := []string{"exec", "exec", "commit", "begin", "stmtexec"}[rnd.Intn(5)]
		nth := rnd.Intn(2 * len(names))
		times := 1 + rnd.Intn(2)
		what := fmt.Sprintf("files %q, call %d of %s fails %d times (history skipped: %v)", names, nth, where, times, skip)
		e := scenario{name: what, dialect: DialectSQLite, files: files, setup: setup}.newEnv(t)
		n := 0
		var failed []string
		e.r.decide = func(kind, q string) error {
			if kind == where {
				n++
				if n > nth && n <= nth+times {
					failed = append(failed, q)
					return errInjected
				}
			}
			return nil
		}
		cmd := &MigrateCmd{DB: e.db, Dialect: DialectSQLite, DirFS: e.fsys, Filenames: names, Stderr: io.Discard, SkipHistoryTable: skip}
		var err error
		guard(t, what, func() { err = cmd.Run() })
		for _, ev := range e.r.log() {
			if skip && ev.Kind != "query" && strings.Contains(ev.SQL, "sqddl_history") {
				t.Errorf("%s: history written: %s", what, ev)
			}
		}
		for _, q := range failed {
			if strings.HasPrefix(q, "INSERT INTO mark") && !errors.Is(err, errInjected) {
				t.Errorf("%s: error %v", what, err)
			}
		}
		e.r.decide = nil
		marks := map[string]bool{}
		rows, qerr := e.db.Query("SELECT name FROM mark")
		if qerr != nil {
			t.Fatal(qerr)
		}
		for rows.Next() {
			var s string
			rows.Scan(&s)
			marks[s] = true
		}
		rows.Close()
		rows, qerr = e.db.Query("SELECT filename, success FROM sqddl_history")
		if qerr != nil {
			t.Fatal(qerr)
		}
		for rows.Next() {
			var s string
			var ok bool
			rows.Scan(&s, &ok)
			if ok && !marks[s] {
				t.Errorf("%s: %s is recorded as successful but did not take effect\n%s", what, s, lines(e.r.log()))
			}
		}
		rows.Close()
		e.close()
	}
}

// records follows the records and the scripts at the connection.
func records(t *testing.T, dialect string) {
	rnd := rand.New(rand.NewSource(2))
	pool := []string{"01.sql", "02.tx.sql", "03.txoff.sql", "04.sql", "05.sql", "repeatable/a.sql", "repeatable/x/c.txoff.sql"}
	files := map[string]string{}
	for _, name := range pool {
		files[name] = "SELECT '" + name + "';"
		if len(name)%2 == 0 {
			files[name] += " SELECT 2;"
		}
	}
	files["03.undo.sql"] = "SELECT 'undo';"
	for round := 0; round < 150; round++ {
		skip := round%5 == 0
		var names []string
		for _, name := range pool {
			if rnd.Intn(3) > 0 {
				names = append(names, name)
			}
		}
		if len(names) == 0 {
			continue
		}
		nth := rnd.Intn(2 * len(names))
		where := []string{"exec", "exec", "commit", "stmtexec"}[rnd.Intn(4)]
		what := fmt.Sprintf("%s: files %q, call %d of %s fails (history skipped: %v)", dialect, names, nth, where, skip)
		e := scenario{name: what, dialect: dialect, files: files}.newEnv(t)
		n := 0
		e.r.decide = func(kind, q string) error {
			if kind == where && strings.Contains(q, "SELECT") {
				n++
				if n == nth+1 {
					return errInjected
				}
			}
			return nil
		}
		cmd := &MigrateCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Filenames: names, Stderr: io.Discard, SkipHistoryTable: skip}
		guard(t, what, func() { cmd.Run() })
		done := map[string]event{}
		for _, ev := range e.r.log() {
			for name, text := range files {
				if ev.Kind == "exec" && ev.SQL == text {
					delete(done, name)
					if ev.Err == nil {
						done[name] = ev
					}
				}
			}
			if !strings.Contains(ev.SQL, "sqddl_history") || ev.Kind == "query" {
				continue
			}
			if skip {
				t.Errorf("%s: history written: %s", what, ev)
			}
			for i := 0; i+4 < len(ev.Args); i++ {
				name, _ := ev.Args[i].(string)
				if _, ok := files[name]; !ok || ev.Args[i+4] != true && ev.Args[i+4] != int64(1) {
					continue
				}
				if run, ok := done[name]; !ok || run.Conn != ev.Conn || run.InTx != ev.InTx {
					t.Errorf("%s: %s is recorded as successful\n%s", what, name, lines(e.r.log()))
				}
			}
		}
		e.close()
	}
}
