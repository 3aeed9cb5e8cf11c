package ddl

import (
	"database/sql"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	"github.com/bokwoon95/sqddl/internal/pqarray"
)

// c14Texts produces texts made of the characters that the parsers look at.
func c14Texts(alphabet []string, maxLen, random int) []string {
	texts := []string{""}
	from := 0
	for n := 1; n <= maxLen; n++ {
		to := len(texts)
		for _, s := range texts[from:to] {
			for _, a := range alphabet {
				texts = append(texts, s+a)
			}
		}
		from = to
	}
	rng := rand.New(rand.NewSource(1))
	for i := 0; i < random; i++ {
		var b strings.Builder
		for n := rng.Intn(14); n >= 0; n-- {
			b.WriteString(alphabet[rng.Intn(len(alphabet))])
		}
		texts = append(texts, b.String())
	}
	return texts
}

// TestReplay hands malformed texts to every parsing operation.
func TestReplay(t *testing.T) {
	dialects := []string{DialectSQLite, DialectPostgres, DialectMySQL, DialectSQLServer, ""}
	try := func(what string, args any, f func()) {
		if t.Failed() {
			return
		}
		guard(t, fmt.Sprintf("%s(%q)", what, args), f)
	}
	for _, s := range c14Texts([]string{"{", "}", " ", "=", ":", ",", "a", "é", "\xff"}, 4, 20000) {
		try("NewModifiers", s, func() {
			ms, err := NewModifiers(s)
			if err != nil {
				return
			}
			_ = Modifiers(ms).String()
			for i := range ms {
				ms[i].ExcludesDialect(DialectSQLite)
				if ms[i].ParseRawValue() == nil {
					_ = Modifiers(ms).String()
				}
			}
		})
	}
	for _, s := range c14Texts([]string{"(", ")", ",", " ", "[]", "'", "::", "varchar", "9", "1", "\""}, 3, 20000) {
		for _, d := range dialects {
			try("normalizeColumnType", []string{d, s}, func() { normalizeColumnType(d, s) })
			try("normalizeColumnDefault", []string{d, s}, func() { normalizeColumnDefault(d, s) })
		}
		try("isLiteral", s, func() { isLiteral(s); wrapBrackets(s); unwrapBrackets(s); wrappedInBrackets(s); splitArgs(s) })
	}
	for _, s := range c14Texts([]string{"?", "$", "@p", "@", ":", "1", "0", "2", "3", "4", "a", "'", "\"", "`", "[", "]", " "}, 3, 30000) {
		for _, d := range dialects {
			for _, args := range [][]any{nil, {1}, {"x", sql.Named("a", 2)}, {nil, []byte{}, time.Time{}}} {
				try("Sprintf", []any{d, s, len(args)}, func() { Sprintf(d, s, args) })
			}
		}
	}
	for _, s := range c14Texts([]string{"file:", "mysql://", "postgres://", "sqlserver://", "sqlite:", "/", "@", ":", "?", "(", ")", ".db", "\n", "a"}, 3, 20000) {
		try("NormalizeDSN", s, func() {
			if !strings.HasPrefix(s, "file:") {
				NormalizeDSN(s)
			}
		})
		for _, dir := range []string{"", ".", "/", "a", "a/", "./a"} {
			try("normalizeFilename", []string{s, dir}, func() { normalizeFilename(dir, s) })
		}
		try("sortAndFilterFilenames", s, func() { sortAndFilterFilenames([]string{s, s + ".sql"}) })
		for _, ts := range []any{s, []byte(s)} {
			try("Timestamp.Scan", s, func() { var v Timestamp; v.Scan(ts) })
		}
	}
	for _, s := range c14Texts([]string{"{", "}", ",", "\"", "\\", "NULL", "x", "1", "t"}, 5, 20000) {
		for _, dst := range []interface{ Scan(any) error }{&pqarray.StringArray{}, &pqarray.Int64Array{}, &pqarray.Int32Array{}, &pqarray.BoolArray{}, &pqarray.Float64Array{}, &pqarray.Float32Array{}, &pqarray.ByteaArray{}} {
			try(fmt.Sprintf("%T.Scan", dst), s, func() { dst.Scan(s) })
		}
	}
	for _, s := range c14Texts([]string{"\\", "x", "1", "2", "a"}, 6, 0) {
		text := `{"` + strings.Repeat("a", 8-len(s)) + strings.ReplaceAll(s, `\`, `\\`) + `"}`
		try("ByteaArray.Scan", text, func() { (&pqarray.ByteaArray{}).Scan(text) })
	}
	_, db := newRec(DialectSQLite)
	defer db.Close()
	mustExec(t, db, sqliteSchema...)
	for _, s := range c14Texts([]string{"{", "}", "{*}", "{actor}", ".", " ", "SELECT ", "{{"}, 4, 300) {
		try("Subset", s, func() {
			ss, err := NewInMemorySubsetter(DialectSQLite, db, Filter{})
			if err != nil {
				t.Fatal(err)
			}
			ss.Subset(s)
		})
	}
	values := []string{"", "{", "{x", "x", ".", "x.y", "a.b.c", "a.b.c.d", "a,b", "{. references}", "{a references=}", "{a references=t}", "{a references=t.x,y,z}",
		"{a}", "{a deferrable}", "{a onupdate=cascade}", "{a onupdate}", "{. index}", "{a index={. unique}}", "{a name=}", "{ }", "{a,b cols=,}", "}", "{}"}
	names := []string{"primarykey", "unique", "index", "foreignkey", "references", "type", "default", "ignore", "virtual", "generated", "onupdate", "collate", "check", "notnull", "len", "mysql:index", ":", "x"}
	for _, name := range names {
		for _, value := range values {
			for _, field := range []string{"_ struct{}", "A sq.NumberField"} {
				tag := name + "=" + value
				src := "package x\ntype T struct {\n sq.TableStruct\n " + field + " `ddl:\"" + tag + "\"`\n B sq.StringField `ddl:\"" + tag + " " + tag + "\"`\n}\n"
				try("StructParser", src, func() {
					for _, d := range dialects[:4] {
						p := NewStructParser(nil)
						f, err := fstest.MapFS{"x.go": &fstest.MapFile{Data: []byte(src), Mode: fs.FileMode(0644)}}.Open("x.go")
						if err != nil {
							t.Fatal(err)
						}
						if p.ParseFile(f) != nil {
							return
						}
						p.WriteCatalog(&Catalog{Dialect: d})
						p.Diagnostics()
						_ = p.Error()
					}
				})
			}
		}
	}
	_ = io.Discard
}
