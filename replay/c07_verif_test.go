package ddl

import (
	"strings"
	"testing"
)

// TestReplay quotes all short texts over an alphabet of special characters and
// reads them back.
func TestReplay(t *testing.T) {
	var texts []string
	alphabet := []string{"a", "A", "1", "_", "'", `"`, "`", "[", "]", " ", ".", ";", "\\", "é", "\xff", "\n", "select", "OLD"}
	texts = append(texts, "")
	last := []string{""}
	for n := 0; n < 3; n++ {
		var next []string
		for _, s := range last {
			for _, a := range alphabet {
				next = append(next, s+a)
			}
		}
		texts = append(texts, next...)
		last = next
	}
	for _, dialect := range append([]string{""}, allDialects...) {
		open, end := byte('"'), byte('"')
		switch dialect {
		case DialectMySQL:
			open, end = '`', '`'
		case DialectSQLServer:
			open, end = '[', ']'
		}
		forms := map[string]string{}
		for _, s := range texts {
			guard(t, "QuoteIdentifier", func() {
				q := QuoteIdentifier(dialect, s)
				if prev, ok := forms[q]; ok {
					t.Errorf("%s: QuoteIdentifier(%q) = QuoteIdentifier(%q) = %q", dialect, s, prev, q)
				}
				forms[q] = s
				if q == s && (special(s) || word(s)) {
					return
				}
				if got, rest, ok := readQuoted(q, open, end); !ok || rest != "" || got != s {
					t.Errorf("%s: QuoteIdentifier(%q) = %q is read as %q followed by %q", dialect, s, q, got, rest)
				}
			})
		}
	}
	for _, s := range texts {
		for _, quote := range []byte("'\"`]") {
			guard(t, "EscapeQuote", func() {
				e := EscapeQuote(s, quote)
				if got, rest, ok := readQuoted(string(quote)+e+string(quote), quote, quote); !ok || rest != "" || got != s {
					t.Errorf("EscapeQuote(%q, %q) = %q is read as %q followed by %q", s, quote, e, got, rest)
				}
			})
		}
		guard(t, "Sprint", func() {
			lit, err := Sprint(DialectSQLite, s)
			if err != nil {
				t.Errorf("Sprint(%q): %v", s, err)
				return
			}
			if strings.ContainsAny(s, "\r\n") {
				return
			}
			if got, rest, ok := readQuoted(lit, '\'', '\''); !ok || rest != "" || got != s {
				t.Errorf("Sprint(%q) = %s is read as %q followed by %q", s, lit, got, rest)
			}
		})
	}
}

func special(s string) bool {
	return s == "EXCLUDED" || s == "INSERTED" || s == "DELETED" || s == "NEW" || s == "OLD"
}

func word(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c != '_' && (c < 'a' || c > 'z') && (c < '0' || c > '9' || i == 0) {
			return false
		}
	}
	return s != ""
}

func readQuoted(s string, open, end byte) (text, rest string, ok bool) {
	if s == "" || s[0] != open {
		return "", s, false
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		if s[i] == end {
			if i+1 < len(s) && s[i+1] == end {
				i++
			} else {
				return b.String(), s[i+1:], true
			}
		}
		b.WriteByte(s[i])
	}
	return b.String(), "", false
}
