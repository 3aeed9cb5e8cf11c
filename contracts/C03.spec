property C03
option noquant lite
# wrote: something that can change the database or a file has been done.
ghost wrote Bool

extern (*database/sql.DB).ExecContext (*database/sql.DB).Exec (*database/sql.DB).Begin (*database/sql.DB).BeginTx
      (*database/sql.Conn).BeginTx (*database/sql.Conn).ExecContext
      (*database/sql.DB).PrepareContext (*database/sql.DB).Prepare (*database/sql.Conn).PrepareContext
      (*database/sql.Tx).ExecContext (*database/sql.Tx).Exec (*database/sql.Tx).PrepareContext (*database/sql.Tx).Prepare
      (*database/sql.Tx).Commit (*database/sql.Stmt).ExecContext (*database/sql.Stmt).Exec
      (ddl.DB).ExecContext (ddl.DB).PrepareContext
      os.Create os.CreateTemp os.Mkdir os.MkdirAll os.MkdirTemp os.Remove os.RemoveAll os.Rename os.WriteFile os.Truncate
      os.Chmod os.Symlink os.Link os.Chtimes io/ioutil.WriteFile
  ghost wrote = true
extern os.OpenFile
  ghost wrote = wrote || arg1 != 0

# Everything that only reads says so.
schema errfunc
  ensures reads-only: wrote == old(wrote)
schema other
  ensures reads-only: wrote == old(wrote)
inline ddl.setSessionValue ddl.closeRows

func (*ddl.GenerateCmd).Run (*ddl.AutomigrateCmd).Run (*ddl.WipeCmd).Run
  noschema
  ensures dry-run: old(arg0.DryRun) ==> wrote == old(wrote)
  invariant dry-run: old(arg0.DryRun) ==> wrote == old(wrote)
# Everything below writes.
func (*ddl.BatchInsert).ExecContext (*ddl.DumpCmd).Run (*ddl.DumpCmd).dumpDir (*ddl.DumpCmd).dumpTgz (*ddl.DumpCmd).dumpZip
      (*ddl.LoadCmd).Run (*ddl.LoadCmd).loadCSV (*ddl.LoadCmd).loadDir (*ddl.LoadCmd).loadSQL (*ddl.LoadCmd).loadTgz
      (*ddl.LoadCmd).loadZip (*ddl.MigrateCmd).Run (*ddl.MigrateCmd).run (*ddl.MigrateCmd).runWithRetry (*ddl.MigrateCmd).undo
      (*ddl.MvCmd).Run (*ddl.RmCmd).Run (*ddl.TablesCmd).Run (*ddl.TouchCmd).Run (*ddl.ViewsCmd).Run
      ddl.ensureHistoryTableExists
  noschema
  ensures writes: true
