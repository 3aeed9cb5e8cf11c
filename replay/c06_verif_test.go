package ddl

import (
	"bytes"
	"fmt"
	"math"
	"regexp"
	"strings"
	"testing"
	"time"
)

var retryIn = regexp.MustCompile(`retrying in (\S+)`)

// TestReplay lets calls of a migration time out or fail, under many settings of
// the retry options.
func TestReplay(t *testing.T) {
	for _, dialect := range allDialects {
		d := Driver{Dialect: dialect, DriverName: "verifrec", IsLockTimeout: func(err error) bool { return strings.Contains(err.Error(), errLock.Error()) }}
		withDriver(dialect, d, func() { retries(t, dialect) })
	}
}

func retries(t *testing.T, dialect string) {
	files := map[string]string{"01.sql": "SELECT 1;", "02.txoff.sql": "SELECT 2;", "03.txoff.sql": "SELECT 3; SELECT 33;", "04.tx.sql": "SELECT 4;"}
	for _, name := range []string{"01.sql", "02.txoff.sql", "03.txoff.sql", "04.tx.sql"} {
		isTx := strings.HasSuffix(name, ".tx.sql") || !strings.HasSuffix(name, ".txoff.sql") && dialect != DialectMySQL
		once := !isTx && strings.Count(files[name], ";") > 1
		for _, base := range []time.Duration{1, time.Millisecond, 400 * time.Millisecond, time.Second, time.Hour, math.MaxInt64 / 3} {
			for _, max := range []time.Duration{1, time.Millisecond} {
				for _, attempts := range []int{1, 2, 3, 40} {
					if attempts == 40 && max > 1 {
						continue
					}
					for _, where := range []string{"begin", "exec", "commit"} {
						for _, fault := range []error{errLock, errInjected} {
							for _, times := range []int{1, 2, 1000} {
								what := fmt.Sprintf("%s %s: %s fails %d times with %q (base delay %v, maximum delay %v, %d attempts)", dialect, name, where, times, fault, base, max, attempts)
								s := scenario{name: what, dialect: dialect, files: files}
								e := s.newEnv(t)
								n, runs, left := 0, 0, times
								e.r.decide = func(kind, q string) error {
									if kind == "exec" && q == files[name] {
										runs++
									}
									if kind == where && (kind != "exec" || q == files[name]) {
										n++
										if left > 0 {
											left--
											return fault
										}
									}
									return nil
								}
								var stderr bytes.Buffer
								cmd := &MigrateCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Filenames: []string{name}, SkipHistoryTable: true, Stderr: &stderr,
									MaxAttempts: attempts, BaseDelay: base, MaxDelay: max}
								var err error
								done := make(chan bool)
								go func() {
									guard(t, what, func() { err = cmd.Run() })
									close(done)
								}()
								select {
								case <-done:
								case <-time.After(5 * time.Second):
									t.Fatalf("%s: still waiting after 5s", what)
								}
								if n > attempts || runs > attempts {
									t.Errorf("%s: %d attempts", what, n)
								}
								if fault != errLock && n > 1 {
									t.Errorf("%s: repeated %d times although it is no lock timeout", what, n)
								}
								if once && where == "exec" && n > 1 {
									t.Errorf("%s: a script of several statements outside a transaction is repeated", what)
								}
								if where == "exec" && fault == errLock && !once && times < attempts && err != nil {
									t.Errorf("%s: gave up early: %v", what, err)
								}
								for _, m := range retryIn.FindAllStringSubmatch(stderr.String(), -1) {
									if dl, err := time.ParseDuration(m[1]); err == nil && (dl < 0 || dl > max) {
										t.Errorf("%s: delay of %v", what, dl)
									}
								}
								e.close()
							}
						}
					}
				}
			}
		}
	}
}
