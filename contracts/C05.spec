property C05
option only noquant
# filetext(name): the text of a migration script. ranin[text]: the connection or
# transaction through which that script was last executed without error, 0 if
# its last execution failed. hist: writes to the history table.
ghost ranin (Array Str Int)
ghost hist Int
extern (io/fs.FS).Open
  ensures text: err == nil ==> uf("text", "Str", ival(result0)) == uf("filetext", "Str", arg0)
extern (ddl.DB).ExecContext
  ensures real: ival(recv) != 0
  ghost ranin = put(ranin, arg1, ite(err == nil, ival(recv), 0))
extern (*database/sql.Conn).ExecContext (*database/sql.Tx).ExecContext (*database/sql.DB).ExecContext
  ensures real: ival(iface(arg0)) != 0
  ghost ranin = put(ranin, arg2, ite(err == nil, ival(iface(arg0)), 0))
extern (*ddl.BatchInsert).ExecContext
  ghost hist = hist + 1
  callback success-is-true: cberr == nil && typeis(cb0[4], "bool") && as(cb0[4], "bool") ==>
      typeis(cb0[0], "string") && get(ranin, uf("filetext", "Str", as(cb0[0], "string"))) == ival(arg2) && ival(arg2) != 0
  callback success-is-known: cberr == nil ==> typeis(cb0[4], "bool")
extern ddl.ensureHistoryTableExists
  ghost hist = hist + 1
func (*ddl.MigrateCmd).run (*ddl.MigrateCmd).runWithRetry (*ddl.MigrateCmd).undo (*ddl.MigrateCmd).Run
  ensures skipped: old(arg0.SkipHistoryTable) ==> hist == old(hist)
  invariant skipped: old(arg0.SkipHistoryTable) ==> hist == old(hist)
