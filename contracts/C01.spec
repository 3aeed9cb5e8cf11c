property C01
option noquant lite
# failed: some operation performed so far has failed and the failure has not
# been absorbed the way the documentation allows.
ghost failed Bool
# rerr: result sets whose iteration ended because of an error.
ghost rerr (Array Int Bool)
# werr: csv writers holding a deferred write error.
ghost werr (Array Int Bool)
# closed: writers closed before. before/openerr: state around the last file open.
ghost closed (Array Int Bool)
ghost wfile (Array Int Bool)
ghost before Bool
ghost openerr Iface
init failed == false

extern (*database/sql.DB).ExecContext (*database/sql.DB).Exec (*database/sql.DB).Begin (*database/sql.DB).BeginTx
      (*database/sql.DB).Conn (*database/sql.DB).Query (*database/sql.Conn).BeginTx (*database/sql.Conn).ExecContext
      (*database/sql.Conn).QueryContext (*database/sql.DB).QueryContext (*database/sql.DB).PrepareContext
      (*database/sql.Tx).ExecContext (*database/sql.Tx).Exec (*database/sql.Tx).QueryContext (*database/sql.Tx).PrepareContext
      (*database/sql.Tx).Commit (*database/sql.Stmt).ExecContext (*database/sql.Stmt).Exec
      (*database/sql.Row).Scan (*database/sql.Rows).Scan
      (ddl.DB).ExecContext (ddl.DB).QueryContext (ddl.DB).PrepareContext (database/sql.Result).RowsAffected
      (*archive/tar.Writer).WriteHeader (*archive/zip.File).Open
      (*archive/zip.Writer).Create (*bufio.Reader).WriteTo (*bytes.Buffer).ReadFrom (*bytes.Buffer).WriteTo
      (*encoding/csv.Writer).Write (*encoding/json.Decoder).Decode (*encoding/json.Encoder).Encode
      (*os.File).ReadFrom (io/fs.File).Stat (io.Writer).Write archive/zip.NewReader compress/gzip.NewReader
      io.Copy io.WriteString io/fs.WalkDir database/sql.Open (*bufio.Reader).Peek go/parser.ParseFile go/format.Source os.MkdirAll (*text/template.Template).Execute
  ghost failed = failed || err != nil

# io.EOF is the normal end of the stream, not a failure.
extern (*encoding/csv.Reader).Read (*archive/tar.Reader).Next
  ghost failed = failed || (err != nil && err != io.EOF)

extern (*database/sql.Rows).Next
  ghost rerr = ite(result, rerr, put(rerr, base(arg0), uf("iterfail", "Bool", base(arg0), ival(uf("iterstamp","Iface", base(arg0))))))
  ghost failed = failed || (!result && uf("iterfail", "Bool", base(arg0), ival(uf("iterstamp","Iface", base(arg0)))))
extern (*database/sql.Rows).Err
  ensures (err != nil) == get(rerr, base(arg0))

extern (*encoding/csv.Writer).Flush
  ghost werr = put(werr, base(arg0), uf("flushfail", "Bool", base(arg0)))
  ghost failed = failed || uf("flushfail", "Bool", base(arg0))
extern (*encoding/csv.Writer).Error
  ensures (err != nil) == get(werr, base(arg0))

# Only the first Close of a writer finishes the file; closing it again is harmless.
extern (*archive/tar.Writer).Close (*archive/zip.Writer).Close (*compress/gzip.Writer).Close
  ghost failed = failed || (err != nil && !get(closed, base(arg0)))
  ghost closed = put(closed, base(arg0), true)

# Opening a file: the failure may be absorbed when the file is merely absent.
extern os.OpenFile
  ghost wfile = put(wfile, base(result0), err == nil)
extern os.Open
  ghost wfile = put(wfile, base(result0), false)
# Closing a file that was opened for writing completes the write.
extern (*os.File).Close
  ghost failed = failed || (err != nil && get(wfile, base(arg0)) && !get(closed, base(arg0)))
  ghost closed = put(closed, base(arg0), true)
extern (io/fs.FS).Open os.Open os.OpenFile io/fs.ReadFile
  ghost before = failed
  ghost openerr = err
  ghost failed = failed || err != nil
extern errors.Is
  ghost failed = ite(result && arg0 == openerr && (arg1 == fs.ErrNotExist || arg1 == os.ErrNotExist), before, failed)
# A lock timeout is absorbed by retrying (see C06).
extern dyn:IsLockTimeout
  ghost failed = failed && !result

schema errfunc
  ensures reported: failed && !old(failed) ==> err != nil
  invariant entry(get(closed, base(f_))) ==> get(closed, base(f_))
schema other
  ensures none: failed == old(failed)
inline ddl.closeRows ddl.setSessionValue

# A data source that cannot be read has no dialect, which every caller reports.
func ddl.NormalizeDSN
  noschema
  ensures unknown: failed && !old(failed) ==> result0 == ""
# Asks whether a path is a directory; a path that cannot be opened is not one.
func ddl.isDir
  ghost failed = old(failed)
# undo reports the original failure whatever becomes of the undo script.
func (*ddl.MigrateCmd).undo
  requires arg3 != nil
  ensures kept: err != nil
