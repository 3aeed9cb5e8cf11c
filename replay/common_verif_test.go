package ddl

// Shared by the replay harnesses: a database/sql driver that records every
// call, can make the n-th call fail, and either forwards to an in-memory
// SQLite database or answers from a canned function.

import (
	"bytes"
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/fstest"
	"time"

	sqlite3 "github.com/mattn/go-sqlite3"
)

var errInjected = errors.New("injected failure")
var errLock = errors.New("lock timeout")

type event struct {
	Kind string // begin commit rollback exec query next prepare stmtexec rowsaffected close-rows close-stmt conn close-conn
	SQL  string
	Args []any
	InTx bool
	Conn int
	Err  error
}

func (e event) String() string {
	s := e.Kind
	if e.SQL != "" {
		q := e.SQL
		if len(q) > 120 {
			q = q[:120] + "..."
		}
		s += " " + fmt.Sprintf("%q", q)
	}
	if len(e.Args) > 0 {
		s += fmt.Sprintf(" %v", e.Args)
	}
	if e.Err != nil {
		s += " -> " + e.Err.Error()
	}
	return s
}

type rec struct {
	mu       sync.Mutex
	events   []event
	n        int // failable calls so far
	failAt   int
	failErr  error
	failed   *event
	decide   func(kind, query string) error // extra faults
	answer   func(query string, args []any) ([]string, [][]driver.Value)
	inner    driver.Driver
	dsn      string
	openRows, openStmt, openTx, conns int
	dir      string
	open     map[string]int
}

func (r *rec) op(kind, query string, args []any, inTx bool, conn int) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	e := event{Kind: kind, SQL: query, Args: args, InTx: inTx, Conn: conn}
	if kind != "rollback" && kind != "conn" && !strings.HasPrefix(kind, "close") {
		r.n++
		if r.n == r.failAt {
			e.Err = r.failErr
			if e.Err == nil {
				e.Err = errInjected
			}
			r.failed = &e
		}
	}
	if e.Err == nil && r.decide != nil {
		e.Err = r.decide(kind, query)
	}
	r.events = append(r.events, e)
	return e.Err
}

func (r *rec) count(what string, d int) {
	r.mu.Lock()
	r.open[what] += d
	r.mu.Unlock()
}

// left is how many of a kind stay open; a cancelled transaction is rolled back
// by database/sql in the background, so wait a little.
func (r *rec) left(what string) int {
	for i := 0; ; i++ {
		r.mu.Lock()
		n := r.open[what]
		r.mu.Unlock()
		if n == 0 || i > 50 {
			return n
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// log is the recorded sequence without bookkeeping calls.
func (r *rec) log() []event {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]event(nil), r.events...)
}

func (r *rec) execs() []event {
	var out []event
	for _, e := range r.log() {
		if e.Kind == "exec" || e.Kind == "stmtexec" {
			out = append(out, e)
		}
	}
	return out
}

type recDriver struct{}

var recs sync.Map
var recNo int64

func (recDriver) Open(name string) (driver.Conn, error) {
	v, _ := recs.Load(name)
	r := v.(*rec)
	r.mu.Lock()
	r.conns++
	id := r.conns
	r.mu.Unlock()
	c := &recConn{r: r, id: id}
	if r.inner != nil {
		ic, err := r.inner.Open(r.dsn)
		if err != nil {
			return nil, err
		}
		c.in = ic
	}
	return c, nil
}

func init() { sql.Register("verifrec", recDriver{}) }

// newRec returns a recorder and a database handle on it. With dialect sqlite
// the statements run on a private in-memory database.
func newRec(dialect string) (*rec, *sql.DB) {
	r := &rec{open: map[string]int{}}
	name := fmt.Sprintf("rec%d", atomic.AddInt64(&recNo, 1))
	if dialect == DialectSQLite {
		r.inner = &sqlite3.SQLiteDriver{}
		dir, err := os.MkdirTemp("", "recdb")
		if err != nil {
			panic(err)
		}
		r.dir = dir
		r.dsn = "file:" + filepath.Join(dir, "x.db") + "?_sync=OFF&_journal=MEMORY&_busy_timeout=3000"
	}
	recs.Store(name, r)
	db, err := sql.Open("verifrec", name)
	if err != nil {
		panic(err)
	}
	return r, db
}

type recConn struct {
	r    *rec
	id   int
	in   driver.Conn
	inTx bool
}

func vals(args []driver.NamedValue) []any {
	var out []any
	for _, a := range args {
		out = append(out, a.Value)
	}
	return out
}

func (c *recConn) Prepare(q string) (driver.Stmt, error) { return c.PrepareContext(context.Background(), q) }

func (c *recConn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if err := c.r.op("prepare", q, nil, c.inTx, c.id); err != nil {
		return nil, err
	}
	st := &recStmt{c: c, q: q}
	if c.in != nil {
		s, err := c.in.Prepare(q)
		if err != nil {
			return nil, err
		}
		st.in = s
	}
	c.r.count("stmt", 1)
	return st, nil
}

func (c *recConn) Close() error {
	if c.in != nil {
		return c.in.Close()
	}
	return nil
}

func (c *recConn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *recConn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	if err := c.r.op("begin", "", nil, c.inTx, c.id); err != nil {
		return nil, err
	}
	t := &recTx{c: c}
	if c.in != nil {
		x, err := c.in.Begin()
		if err != nil {
			return nil, err
		}
		t.in = x
	}
	c.inTx = true
	c.r.count("tx", 1)
	return t, nil
}

func (c *recConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := c.r.op("exec", q, vals(args), c.inTx, c.id); err != nil {
		return nil, err
	}
	if c.in != nil {
		res, err := c.in.(driver.ExecerContext).ExecContext(ctx, q, args)
		if err != nil {
			return nil, err
		}
		return recResult{c.r, res, c}, nil
	}
	return recResult{c.r, driver.RowsAffected(1), c}, nil
}

func (c *recConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := c.r.op("query", q, vals(args), c.inTx, c.id); err != nil {
		return nil, err
	}
	return c.rows(ctx, q, args, nil)
}

func (c *recConn) rows(ctx context.Context, q string, args []driver.NamedValue, st driver.Stmt) (driver.Rows, error) {
	rw := &recRows{c: c, q: q}
	switch {
	case st != nil:
		var vs []driver.Value
		for _, a := range args {
			vs = append(vs, a.Value)
		}
		in, err := st.Query(vs)
		if err != nil {
			return nil, err
		}
		rw.in = in
	case c.in != nil:
		in, err := c.in.(driver.QueryerContext).QueryContext(ctx, q, args)
		if err != nil {
			return nil, err
		}
		rw.in = in
	default:
		rw.cols = []string{"c"}
		if c.r.answer != nil {
			rw.cols, rw.data = c.r.answer(q, vals(args))
		}
	}
	c.r.count("rows", 1)
	return rw, nil
}

func (c *recConn) CheckNamedValue(nv *driver.NamedValue) error {
	v, err := driver.DefaultParameterConverter.ConvertValue(nv.Value)
	if err == nil {
		nv.Value = v
	}
	return err
}

type recTx struct {
	c    *recConn
	in   driver.Tx
	done bool
}

func (t *recTx) finish() {
	if !t.done {
		t.done = true
		t.c.inTx = false
		t.c.r.count("tx", -1)
	}
}

func (t *recTx) Commit() error {
	err := t.c.r.op("commit", "", nil, t.c.inTx, t.c.id)
	t.finish()
	if err != nil {
		if t.in != nil {
			t.in.Rollback()
		}
		return err
	}
	if t.in != nil {
		return t.in.Commit()
	}
	return nil
}

func (t *recTx) Rollback() error {
	t.c.r.op("rollback", "", nil, t.c.inTx, t.c.id)
	t.finish()
	if t.in != nil {
		return t.in.Rollback()
	}
	return nil
}

type recStmt struct {
	c      *recConn
	q      string
	in     driver.Stmt
	closed bool
}

func (s *recStmt) Close() error {
	if !s.closed {
		s.closed = true
		s.c.r.count("stmt", -1)
		if s.in != nil {
			return s.in.Close()
		}
	}
	return nil
}
func (s *recStmt) NumInput() int { return -1 }
func (s *recStmt) Exec(args []driver.Value) (driver.Result, error) {
	var vs []any
	for _, a := range args {
		vs = append(vs, a)
	}
	if err := s.c.r.op("stmtexec", s.q, vs, s.c.inTx, s.c.id); err != nil {
		return nil, err
	}
	if s.in != nil {
		res, err := s.in.Exec(args)
		if err != nil {
			return nil, err
		}
		return recResult{s.c.r, res, s.c}, nil
	}
	return recResult{s.c.r, driver.RowsAffected(1), s.c}, nil
}
func (s *recStmt) Query(args []driver.Value) (driver.Rows, error) {
	if err := s.c.r.op("query", s.q, nil, s.c.inTx, s.c.id); err != nil {
		return nil, err
	}
	var nv []driver.NamedValue
	for i, a := range args {
		nv = append(nv, driver.NamedValue{Ordinal: i + 1, Value: a})
	}
	return s.c.rows(context.Background(), s.q, nv, s.in)
}

type recResult struct {
	r  *rec
	in driver.Result
	c  *recConn
}

func (r recResult) LastInsertId() (int64, error) { return 0, nil }
func (r recResult) RowsAffected() (int64, error) {
	if err := r.r.op("rowsaffected", "", nil, r.c.inTx, r.c.id); err != nil {
		return 0, err
	}
	return r.in.RowsAffected()
}

type recRows struct {
	c      *recConn
	q      string
	in     driver.Rows
	cols   []string
	data   [][]driver.Value
	closed bool
}

func (r *recRows) Columns() []string {
	if r.in != nil {
		return r.in.Columns()
	}
	return r.cols
}
func (r *recRows) Close() error {
	if !r.closed {
		r.closed = true
		r.c.r.count("rows", -1)
		if r.in != nil {
			return r.in.Close()
		}
	}
	return nil
}
func (r *recRows) Next(dest []driver.Value) error {
	if err := r.c.r.op("next", r.q, nil, r.c.inTx, r.c.id); err != nil {
		return err
	}
	if r.in != nil {
		return r.in.Next(dest)
	}
	if len(r.data) == 0 {
		return io.EOF
	}
	copy(dest, r.data[0])
	r.data = r.data[1:]
	return nil
}

// faultFS wraps a file system and fails the n-th operation; it also counts
// the files that are open.
type faultFS struct {
	fs.FS
	mu     sync.Mutex
	n      int
	failAt int
	failed string
	open   int
	names  []string
	noStat bool
}

func (f *faultFS) op(what string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.n == f.failAt {
		f.failed = what
		return errInjected
	}
	return nil
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if err := f.op("open " + name); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	file, err := f.FS.Open(name)
	if err != nil {
		return nil, err
	}
	f.mu.Lock()
	f.open++
	f.names = append(f.names, name)
	f.mu.Unlock()
	ff := &faultFile{File: file, f: f, name: name}
	if _, ok := file.(io.ReaderAt); ok {
		return &faultFileAt{ff}, nil
	}
	return ff, nil
}

type faultFile struct {
	fs.File
	f      *faultFS
	name   string
	closed bool
}

func (f *faultFile) Read(b []byte) (int, error) {
	n, err := f.File.Read(b)
	if n > 0 {
		if err := f.f.op("read " + f.name); err != nil {
			return 0, err
		}
	}
	return n, err
}
func (f *faultFile) Stat() (fs.FileInfo, error) {
	if f.f.noStat {
		return nil, errInjected
	}
	return f.File.Stat()
}
func (f *faultFile) Close() error {
	if !f.closed {
		f.closed = true
		f.f.mu.Lock()
		f.f.open--
		f.f.mu.Unlock()
	}
	return f.File.Close()
}
func (f *faultFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if d, ok := f.File.(fs.ReadDirFile); ok {
		return d.ReadDir(n)
	}
	return nil, errors.New("not a directory")
}

type faultFileAt struct{ *faultFile }

func (f *faultFileAt) ReadAt(b []byte, off int64) (int, error) {
	if err := f.f.op("read " + f.name); err != nil {
		return 0, err
	}
	return f.File.(io.ReaderAt).ReadAt(b, off)
}

// faultWriter fails the n-th write.
type faultWriter struct {
	bytes.Buffer
	n, failAt int
	fired     bool
}

func (w *faultWriter) Write(b []byte) (int, error) {
	w.n++
	if w.n == w.failAt {
		w.fired = true
		return 0, errInjected
	}
	return w.Buffer.Write(b)
}

func mapFS(files map[string]string) fstest.MapFS {
	m := fstest.MapFS{}
	for k, v := range files {
		m[k] = &fstest.MapFile{Data: []byte(v), Mode: 0o644, ModTime: time.Unix(0, 0)}
	}
	return m
}

func mustExec(t *testing.T, db *sql.DB, qs ...string) {
	t.Helper()
	for _, q := range qs {
		if _, err := db.Exec(q); err != nil {
			t.Fatalf("%s: %v", q, err)
		}
	}
}

func tmpDir(t *testing.T) string {
	d, err := os.MkdirTemp("", "replay")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func readTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func lines(es []event) string {
	var out []string
	for _, e := range es {
		if e.Kind != "next" {
			out = append(out, "    "+e.String())
		}
	}
	if len(out) > 40 {
		out = append(out[:40], "    ...")
	}
	return strings.Join(out, "\n")
}

// guard turns a panic into a test failure naming the case.
func guard(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s: panic: %v", what, r)
		}
	}()
	f()
}

// withDriver registers d for dialect while f runs.
func withDriver(dialect string, d Driver, f func()) {
	old, had := getDriver(dialect)
	d.Dialect = dialect
	Register(d)
	defer func() {
		if had {
			Register(old)
		} else {
			Register(Driver{Dialect: dialect})
		}
	}()
	f()
}

var allDialects = []string{DialectSQLite, DialectPostgres, DialectMySQL, DialectSQLServer}

var _ = sort.Strings

// env is what one run of a scenario uses.
type env struct {
	t    *testing.T
	r    *rec
	db   *sql.DB
	fsys *faultFS
	out  *faultWriter
	dir  string
}

func (e *env) close() {
	e.db.Close()
	if e.r.dir != "" {
		os.RemoveAll(e.r.dir)
	}
	os.RemoveAll(e.dir)
}

type scenario struct {
	name    string
	dialect string
	files   map[string]string
	setup   []string
	prep    func(e *env)
	run     func(e *env) error
	lock    bool
}

func (s scenario) newEnv(t *testing.T) *env {
	r, db := newRec(s.dialect)
	if s.dialect != DialectSQLite {
		r.answer = cannedAnswer
	}
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		t.Fatal(err)
	}
	e := &env{t: t, r: r, db: db, fsys: &faultFS{FS: mapFS(s.files)}, out: &faultWriter{}, dir: dir}
	mustExec(t, db, s.setup...)
	if s.prep != nil {
		s.prep(e)
	}
	r.mu.Lock()
	r.events, r.n, r.failAt, r.failed = nil, 0, 0, nil
	r.mu.Unlock()
	return e
}

func cannedAnswer(q string, args []any) ([]string, [][]driver.Value) {
	switch {
	case strings.HasPrefix(q, "SELECT EXISTS"), strings.HasPrefix(q, "IF EXISTS"):
		return []string{"v"}, [][]driver.Value{{int64(1)}}
	case len(q) > 200:
		return []string{"c"}, nil
	case strings.Contains(q, "server_version") || strings.Contains(q, "SELECT version()") || strings.Contains(q, "ProductVersion"):
		return []string{"v"}, [][]driver.Value{{"15.2"}}
	case strings.Contains(q, "current_schema") || strings.Contains(q, "database()") || strings.Contains(q, "SCHEMA_NAME()"):
		return []string{"v"}, [][]driver.Value{{"public"}}
	case strings.Contains(q, "lock_timeout"), strings.Contains(q, "LOCK_TIMEOUT"), strings.Contains(q, "lock_wait_timeout"), strings.Contains(q, "foreign_key_checks"), strings.Contains(q, "timezone"):
		return []string{"v"}, [][]driver.Value{{"77"}}
	case strings.Contains(q, "sqddl_history") && strings.Contains(q, "IN ("):
		return []string{"filename", "checksum", "started_at", "time_taken_ns", "success"}, nil
	}
	return []string{"c"}, nil
}

var sqliteSchema = []string{
	"CREATE TABLE actor (actor_id INTEGER PRIMARY KEY, first_name TEXT, data BLOB, score REAL, updated TIMESTAMP)",
	"CREATE TABLE film (film_id INTEGER PRIMARY KEY, title TEXT NOT NULL, actor_id INT REFERENCES actor (actor_id))",
	"CREATE INDEX film_title_idx ON film (title)",
	"CREATE VIEW actor_view AS SELECT actor_id, first_name FROM actor",
	"CREATE TRIGGER trg AFTER INSERT ON film BEGIN UPDATE actor SET score = 1; END",
	"INSERT INTO actor VALUES (1, 'A', x'01', 1.5, '2020-01-01 00:00:00'), (2, 'B', NULL, NULL, NULL), (3, 'it''s', x'02', 2, '2021-01-01')",
	"INSERT INTO film VALUES (1, 'T1', 1), (2, 'T2', 2), (3, 'T3', NULL)",
}

const historyDDL = "CREATE TABLE sqddl_history (filename VARCHAR(255) PRIMARY KEY NOT NULL, checksum VARCHAR(64), started_at DATETIME, time_taken_ns BIGINT, success BOOLEAN)"

const structsGo = `package tables

import "github.com/bokwoon95/sq"

type ACTOR struct {
	sq.TableStruct
	ACTOR_ID   sq.NumberField ` + "`ddl:\"type=INTEGER primarykey\"`" + `
	FIRST_NAME sq.StringField ` + "`ddl:\"notnull default=''\"`" + `
	EMAIL      sq.StringField ` + "`ddl:\"unique index\"`" + `
}

type FILM struct {
	sq.TableStruct
	FILM_ID  sq.NumberField ` + "`ddl:\"type=INTEGER primarykey\"`" + `
	ACTOR_ID sq.NumberField ` + "`ddl:\"references={actor.actor_id index}\"`" + `
}
`

func scenarios() []scenario {
	var out []scenario
	migFiles := map[string]string{
		"01_a.sql":             "CREATE TABLE t1 (id INT);",
		"02_b.sql":             "CREATE TABLE t2 (id INT);",
		"03_c.txoff.sql":       "CREATE TABLE t3 (id INT); CREATE TABLE t3b (id INT);",
		"03_c.undo.sql":        "SELECT 1;",
		"04_d.sql":             "CREATE TABLE t4 (id INT);",
		"05_e.tx.sql":          "CREATE TABLE t5 (id INT);",
		"repeatable/r1.sql":    "CREATE VIEW IF NOT EXISTS v1 AS SELECT 1;",
		"repeatable/r2.sql":    "CREATE VIEW IF NOT EXISTS v2 AS SELECT 1;",
		"notes.txt":            "x",
	}
	for _, dialect := range allDialects {
		dialect := dialect
		out = append(out, scenario{name: "migrate/" + dialect, dialect: dialect, files: migFiles, run: func(e *env) error {
			return (&MigrateCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Stderr: io.Discard}).Run()
		}}, scenario{name: "migrate-skip-history/" + dialect, dialect: dialect, files: migFiles, run: func(e *env) error {
			return (&MigrateCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Stderr: io.Discard, SkipHistoryTable: true, Filenames: []string{"01_a.sql", "03_c.txoff.sql", "05_e.tx.sql"}}).Run()
		}}, scenario{name: "touch/" + dialect, dialect: dialect, files: migFiles, run: func(e *env) error {
			return (&TouchCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Stderr: io.Discard, Filenames: []string{"01_a.sql", "repeatable/r1.sql"}}).Run()
		}}, scenario{name: "ls/" + dialect, dialect: dialect, files: migFiles, setup: []string{historyDDL, "INSERT INTO sqddl_history VALUES ('01_a.sql', '', '2020-01-01', 1, TRUE), ('zz.sql', '', '2020-01-01', 1, TRUE)"}, run: func(e *env) error {
			return (&LsCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Stdout: e.out, IncludeAll: true}).Run()
		}}, scenario{name: "mv/" + dialect, dialect: dialect, setup: []string{historyDDL}, run: func(e *env) error {
			return (&MvCmd{DB: e.db, Dialect: dialect, SrcFilename: "a.sql", DestFilename: "b.sql", Stderr: io.Discard}).Run()
		}}, scenario{name: "rm/" + dialect, dialect: dialect, setup: []string{historyDDL}, run: func(e *env) error {
			return (&RmCmd{DB: e.db, Dialect: dialect, Filenames: []string{"a.sql", "b.sql"}, Stderr: io.Discard}).Run()
		}}, scenario{name: "batchinsert/" + dialect, dialect: dialect, setup: []string{"CREATE TABLE bt (a INT PRIMARY KEY, b TEXT)"}, run: func(e *env) error {
			bi := BatchInsert{Dialect: dialect, TableName: "bt", Columns: []string{"a", "b"}, KeyColumns: []string{"a"}, Batchsize: 2}
			i := 0
			_, err := bi.ExecContext(context.Background(), e.db, func(row []any) error {
				if i >= 5 {
					return io.EOF
				}
				row[0], row[1] = i, "x"
				i++
				return nil
			})
			return err
		}})
	}
	sc := DialectSQLite
	out = append(out,
		scenario{name: "wipe/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&WipeCmd{DB: e.db, Dialect: sc, Stdout: e.out}).Run()
		}},
		scenario{name: "wipe-dryrun/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&WipeCmd{DB: e.db, Dialect: sc, Stdout: e.out, DryRun: true}).Run()
		}},
		scenario{name: "tables/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&TablesCmd{DB: e.db, Dialect: sc, Stdout: e.out}).Run()
		}},
		scenario{name: "views/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&ViewsCmd{DB: e.db, Dialect: sc, Stdout: e.out}).Run()
		}},
		scenario{name: "dump-dir/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&DumpCmd{DB: e.db, Dialect: sc, OutputDir: e.dir, Stderr: io.Discard}).Run()
		}},
		scenario{name: "dump-subset/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&DumpCmd{DB: e.db, Dialect: sc, OutputDir: e.dir, Stderr: io.Discard, SubsetQueries: []string{"SELECT {*} FROM {film} WHERE film_id < 3"}}).Run()
		}},
		scenario{name: "dump-zip/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&DumpCmd{DB: e.db, Dialect: sc, OutputDir: e.dir, Stderr: io.Discard, Zip: "x.zip"}).Run()
		}},
		scenario{name: "dump-tgz/sqlite", dialect: sc, setup: sqliteSchema, run: func(e *env) error {
			return (&DumpCmd{DB: e.db, Dialect: sc, OutputDir: e.dir, Stderr: io.Discard, Tgz: "x.tgz"}).Run()
		}},
		scenario{name: "load-dir/sqlite", dialect: sc, files: map[string]string{
			"dump/schema.sql": "CREATE TABLE actor (actor_id INTEGER PRIMARY KEY, first_name TEXT);",
			"dump/actor.csv":  "actor_id,first_name\n1,A\n2,B\n", "dump/indexes.sql": "CREATE INDEX ix ON actor (first_name);", "dump/constraints.sql": "SELECT 1;"},
			run: func(e *env) error {
				return (&LoadCmd{DB: e.db, Dialect: sc, DirFS: e.fsys, Filenames: []string{"dump"}, Stderr: io.Discard}).Run()
			}},
		scenario{name: "load-files/sqlite", dialect: sc, files: map[string]string{
			"schema.sql": "CREATE TABLE actor (actor_id INTEGER PRIMARY KEY, first_name TEXT);",
			"actor.csv":  "actor_id,first_name\n1,A\n2,B\n"},
			run: func(e *env) error {
				return (&LoadCmd{DB: e.db, Dialect: sc, DirFS: e.fsys, Filenames: []string{"schema.sql", "actor.csv"}, Stderr: io.Discard}).Run()
			}},
		scenario{name: "load-zip/sqlite", dialect: sc, setup: sqliteSchema, prep: archive("x.zip"), run: func(e *env) error {
			return (&LoadCmd{DB: e.db, Dialect: sc, DirFS: e.fsys, Filenames: []string{"x.zip"}, Stderr: io.Discard}).Run()
		}},
		scenario{name: "load-tgz/sqlite", dialect: sc, setup: sqliteSchema, prep: archive("x.tgz"), run: func(e *env) error {
			return (&LoadCmd{DB: e.db, Dialect: sc, DirFS: e.fsys, Filenames: []string{"x.tgz"}, Stderr: io.Discard}).Run()
		}},
		scenario{name: "automigrate/sqlite", dialect: sc, setup: sqliteSchema, files: map[string]string{"tables.go": structsGo}, run: func(e *env) error {
			return (&AutomigrateCmd{DB: e.db, Dialect: sc, DirFS: e.fsys, Filenames: []string{"tables.go"}, Stdout: e.out, Stderr: io.Discard, DropObjects: true, AcceptWarnings: true}).Run()
		}},
		scenario{name: "automigrate-dryrun/sqlite", dialect: sc, setup: sqliteSchema, files: map[string]string{"tables.go": structsGo}, run: func(e *env) error {
			return (&AutomigrateCmd{DB: e.db, Dialect: sc, DirFS: e.fsys, Filenames: []string{"tables.go"}, Stdout: e.out, Stderr: io.Discard, DropObjects: true, AcceptWarnings: true, DryRun: true}).Run()
		}},
		scenario{name: "generate/sqlite", dialect: sc, files: map[string]string{"tables.go": structsGo}, run: func(e *env) error {
			return (&GenerateCmd{Dialect: sc, SrcCatalog: &Catalog{Dialect: sc}, DirFS: e.fsys, Filenames: []string{"tables.go"}, OutputDir: e.dir, Stdout: e.out, Stderr: io.Discard, AcceptWarnings: true}).Run()
		}},
		scenario{name: "generate-dryrun/sqlite", dialect: sc, files: map[string]string{"tables.go": structsGo}, run: func(e *env) error {
			return (&GenerateCmd{Dialect: sc, SrcCatalog: &Catalog{Dialect: sc}, DirFS: e.fsys, Filenames: []string{"tables.go"}, OutputDir: e.dir, Stdout: e.out, Stderr: io.Discard, AcceptWarnings: true, DryRun: true}).Run()
		}},
	)
	for _, dialect := range allDialects[1:] {
		dialect := dialect
		out = append(out, scenario{name: "load-dir/" + dialect, dialect: dialect, files: map[string]string{
			"dump/schema.sql": "CREATE TABLE actor (actor_id INTEGER PRIMARY KEY, first_name TEXT);",
			"dump/actor.csv":  "actor_id,first_name\n1,A\n2,B\n", "dump/film.csv": "film_id\n1\n2\n", "dump/indexes.sql": "CREATE INDEX ix ON actor (first_name);", "dump/constraints.sql": "SELECT 1;"},
			run: func(e *env) error {
				return (&LoadCmd{DB: e.db, Dialect: dialect, DirFS: e.fsys, Filenames: []string{"dump"}, Stderr: io.Discard}).Run()
			}})
	}
	for _, dialect := range allDialects {
		dialect := dialect
		in := func(name string, f func(dbi *DatabaseIntrospector) error) {
			s := scenario{name: "introspect-" + name + "/" + dialect, dialect: dialect, run: func(e *env) error {
				return f(NewDatabaseIntrospector(dialect, e.db))
			}}
			if dialect == DialectSQLite {
				s.setup = sqliteSchema
			}
			out = append(out, s)
		}
		in("version", func(d *DatabaseIntrospector) error { _, err := d.GetVersion(); return err })
		in("schema", func(d *DatabaseIntrospector) error { _, err := d.GetCurrentSchema(); return err })
		in("database", func(d *DatabaseIntrospector) error { _, err := d.GetDatabaseName(); return err })
		in("tables", func(d *DatabaseIntrospector) error { _, err := d.GetTables(); return err })
		in("columns", func(d *DatabaseIntrospector) error { _, err := d.GetColumns(); return err })
		in("constraints", func(d *DatabaseIntrospector) error { _, err := d.GetConstraints(); return err })
		in("indexes", func(d *DatabaseIntrospector) error { _, err := d.GetIndexes(); return err })
		in("triggers", func(d *DatabaseIntrospector) error { _, err := d.GetTriggers(); return err })
		in("views", func(d *DatabaseIntrospector) error { _, err := d.GetViews(); return err })
		if dialect == DialectPostgres {
			in("enums", func(d *DatabaseIntrospector) error { _, err := d.GetEnums(); return err })
			in("domains", func(d *DatabaseIntrospector) error { _, err := d.GetDomains(); return err })
			in("extensions", func(d *DatabaseIntrospector) error { _, err := d.GetExtensions(); return err })
		}
		if dialect != DialectSQLite {
			in("routines", func(d *DatabaseIntrospector) error { _, err := d.GetRoutines(); return err })
		}
	}
	return out
}

// archive dumps the database into an archive, empties it and serves the
// archive from the scenario's file system.
func archive(name string) func(e *env) {
	return func(e *env) {
		cmd := &DumpCmd{DB: e.db, Dialect: DialectSQLite, OutputDir: e.dir, Stderr: io.Discard}
		if strings.HasSuffix(name, ".zip") {
			cmd.Zip = name
		} else {
			cmd.Tgz = name
		}
		if err := cmd.Run(); err != nil {
			e.t.Fatal(err)
		}
		mustExec(e.t, e.db, "DROP VIEW actor_view", "DROP TABLE film", "DROP TABLE actor")
		e.fsys.FS = os.DirFS(e.dir)
	}
}

// eachFault runs every scenario once undisturbed and once per failing
// operation; check sees the state after each run.
func eachFault(t *testing.T, filter func(s scenario) bool, check func(s scenario, e *env, fault string, err error)) {
	eachFaultErr(t, errInjected, filter, check)
}

func eachFaultErr(t *testing.T, fail error, filter func(s scenario) bool, check func(s scenario, e *env, fault string, err error)) {
	for _, s := range scenarios() {
		if filter != nil && !filter(s) {
			continue
		}
		s := s
		run := func(setFault func(e *env), fault func(e *env) string) (nDB, nFS, nOut int, fired bool) {
			e := s.newEnv(t)
			defer e.close()
			e.fsys.n, e.out.n = 0, 0
			setFault(e)
			var err error
			guard(t, s.name, func() { err = s.run(e) })
			f := fault(e)
			check(s, e, f, err)
			return e.r.n, e.fsys.n, e.out.n, f != ""
		}
		nDB, nFS, nOut, _ := run(func(e *env) {}, func(e *env) string { return "" })
		for k := 1; k <= nDB && k < 200; k++ {
			k := k
			run(func(e *env) { e.r.failAt, e.r.failErr = k, fail }, func(e *env) string {
				if e.r.failed == nil {
					return ""
				}
				return "database call " + e.r.failed.String()
			})
		}
		for k := 1; k <= nFS && k < 60; k++ {
			k := k
			run(func(e *env) { e.fsys.failAt = k }, func(e *env) string {
				if e.fsys.failed == "" {
					return ""
				}
				return "file " + e.fsys.failed
			})
		}
		for k := 1; k <= nOut && k < 40; k++ {
			k := k
			run(func(e *env) { e.out.failAt = k }, func(e *env) string {
				if !e.out.fired {
					return ""
				}
				return fmt.Sprintf("write %d of the output", k)
			})
		}
	}
}
