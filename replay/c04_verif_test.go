package ddl

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"
)

// TestReplay runs migrations over many sets of files, histories and failing
// scripts and compares the scripts that reach the database with a direct
// description of what is due.
func TestReplay(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	pool := []string{"01.sql", "02.tx.sql", "03.txoff.sql", "04.sql", "05.sql", "06.txoff.sql", "repeatable/a.sql", "repeatable/b.tx.sql", "repeatable/x/c.txoff.sql", "07.sql"}
	content := func(name string) string { return "SELECT '" + name + "';\r\nSELECT 2;" }
	sum := func(s string) string {
		h := sha256.Sum256([]byte(strings.ReplaceAll(s, "\r\n", "\n")))
		return hex.EncodeToString(h[:])
	}
	files := map[string]string{}
	for _, name := range pool {
		files[name] = content(name)
		files[strings.TrimSuffix(strings.TrimSuffix(name, ".sql"), ".txoff")+".undo.sql"] = "SELECT 'undo " + name + "';"
	}
	for round := 0; round < 1500; round++ {
		skip := round%7 == 0
		var names, setup []string
		due := map[string]bool{}
		setup = append(setup, historyDDL)
		for _, name := range pool {
			if rnd.Intn(3) == 0 {
				continue
			}
			names = append(names, name)
			due[name] = true
			if skip {
				continue
			}
			switch rnd.Intn(5) {
			case 0: // recorded as successful with this content
				setup = append(setup, fmt.Sprintf("INSERT INTO sqddl_history VALUES ('%s', '%s', NULL, NULL, 1)", name, sum(content(name))))
				due[name] = false
			case 1: // recorded as successful with other content
				setup = append(setup, fmt.Sprintf("INSERT INTO sqddl_history VALUES ('%s', 'other', NULL, NULL, 1)", name))
				due[name] = strings.HasPrefix(name, "repeatable/")
			case 2: // recorded as failed with this content
				setup = append(setup, fmt.Sprintf("INSERT INTO sqddl_history VALUES ('%s', '%s', NULL, NULL, 0)", name, sum(content(name))))
			}
		}
		if len(names) == 0 {
			continue
		}
		given := append([]string(nil), names...)
		if round%5 == 0 {
			given = append(given, given...)
		}
		failing := ""
		if rnd.Intn(2) == 0 {
			failing = names[rnd.Intn(len(names))]
		}
		var want []string
		stopped := false
		for _, pass := range []bool{false, true} {
			for _, name := range names {
				if due[name] && strings.HasPrefix(name, "repeatable/") == pass && !stopped {
					want = append(want, name)
					stopped = name == failing
				}
			}
		}
		what := fmt.Sprintf("files %q, history %q, script of %q fails", given, setup[1:], failing)
		e := scenario{name: what, dialect: DialectSQLite, files: files, setup: setup}.newEnv(t)
		e.r.decide = func(kind, q string) error {
			if kind == "exec" && failing != "" && q == content(failing) {
				return errInjected
			}
			return nil
		}
		cmd := &MigrateCmd{DB: e.db, Dialect: DialectSQLite, DirFS: e.fsys, Filenames: given, Stderr: io.Discard, SkipHistoryTable: skip}
		var err error
		guard(t, what, func() { err = cmd.Run() })
		var got []string
		for _, ev := range e.r.log() {
			for _, name := range pool {
				if ev.Kind == "exec" && ev.SQL == content(name) {
					got = append(got, name)
				}
			}
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			t.Errorf("%s: executed %q, due are %q (error %v)", what, got, want, err)
		}
		if (err != nil) != stopped {
			t.Errorf("%s: error %v", what, err)
		}
		e.close()
	}
}
