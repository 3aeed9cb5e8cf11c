package ddl

import (
	"path/filepath"
	"strings"
	"testing"
)

// TestReplay compares the selection of files and the spelling of names with
// direct descriptions of both.
func TestReplay(t *testing.T) {
	pool := []string{"a.sql", "b.sql", "01.sql", "a.undo.sql", "schema.sql", "indexes.sql", "constraints.sql", "my_schema.sql", "x.csv", "a.sql.bak", ".sql",
		"repeatable/a.sql", "repeatable/x/b.sql", "repeatable/schema.sql", "repeatable/c.undo.sql", "repeatable/x/indexes.sql", "repeatable.sql", "repeatable_a.sql", "undo.sql", "", "sub/x.sql", "sub/schema.sql"}
	check := func(names []string) {
		var versioned, repeatable []string
		seen := map[string]bool{}
		for _, name := range names {
			if !strings.HasSuffix(name, ".sql") || strings.HasSuffix(name, ".undo.sql") {
				continue
			}
			switch filepath.Base(name) {
			case "schema.sql", "indexes.sql", "constraints.sql":
				continue
			}
			if seen[name] {
				continue
			}
			seen[name] = true
			if strings.HasPrefix(name, "repeatable/") {
				repeatable = append(repeatable, name)
			} else {
				versioned = append(versioned, name)
			}
		}
		want := append(versioned, repeatable...)
		in := append([]string(nil), names...)
		guard(t, "sortAndFilterFilenames", func() {
			got := sortAndFilterFilenames(in)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				t.Errorf("selected %q from %q, want %q", got, names, want)
			}
		})
	}
	check(nil)
	check(pool)
	for i := range pool {
		check(pool[i:])
		check(pool[:i])
		for j := range pool {
			check([]string{pool[i], pool[j]})
			check([]string{pool[i], "m.sql", pool[j], "repeatable/z.sql", "n.sql"})
		}
	}
	for _, dir := range []string{"mig", "./mig", "mig/", "./mig/", "a/mig", "/x/mig", ".", "./", "", "m.d"} {
		clean := filepath.Clean(dir)
		for _, name := range []string{"a.sql", "mig.sql", "migration.sql", "mig/a.sql", ".hidden.sql", "repeatable/a.sql", "repeatable/mig/a.sql", "m.d.sql", "..a.sql"} {
			spellings := []string{name}
			if dir != "" {
				spellings = []string{"./" + name, dir + "/" + name, clean + "/" + name}
				if !strings.HasPrefix(name, clean+"/") {
					spellings = append(spellings, name)
				}
			}
			for _, s := range spellings {
				want := name
				if s == "./"+name && clean != "." {
					want = strings.TrimPrefix(name, clean+"/")
				}
				guard(t, "normalizeFilename", func() {
					if got := normalizeFilename(s, dir); got != want {
						t.Errorf("file %q of directory %q is called %q, want %q", s, dir, got, want)
					}
				})
			}
		}
	}
}
