package ddl

import (
	"strings"
	"testing"
)

// TestReplay generates names for tables and columns of many lengths.
func TestReplay(t *testing.T) {
	suffix := map[string]string{PRIMARY_KEY: "_pkey", FOREIGN_KEY: "_fkey", UNIQUE: "_key", INDEX: "_idx", CHECK: "_check", EXCLUDE: "_excl"}
	for kind, end := range suffix {
		for _, unit := range []string{"a", " ", "_", "é", "世", "\xff", "key"} {
			for n := 0; n < 90; n++ {
				for cols := 0; cols < 4; cols++ {
					table := strings.Repeat(unit, n)
					columns := []string{"x", table, unit + "b"}[:cols]
					guard(t, "GenerateName", func() {
						name := GenerateName(kind, table, columns)
						if len(name) > 63 {
							t.Errorf("GenerateName(%q, %q, %q) = %q: %d bytes", kind, table, columns, name, len(name))
						}
						if !strings.HasSuffix(name, end) {
							t.Errorf("GenerateName(%q, %q, %q) = %q", kind, table, columns, name)
						}
						for i := 0; i < 3; i++ {
							if again := GenerateName(kind, table, columns); again != name {
								t.Errorf("GenerateName(%q, %q, %q) = %q, then %q", kind, table, columns, name, again)
							}
						}
					})
				}
			}
		}
	}
}
