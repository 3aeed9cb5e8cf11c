property C02
option noquant lite
# cur: the transaction that is open, 0 if none. failed: a statement issued since
# it began has failed.
ghost cur Int
ghost failed Bool

extern (*database/sql.DB).Begin (*database/sql.DB).BeginTx (*database/sql.Conn).BeginTx
  requires previous-finished: cur == 0
  ghost cur = ite(err == nil, base(result0), 0)
  ghost failed = false
extern (*database/sql.Tx).Commit
  requires open: cur == base(arg0)
  requires all-succeeded: !failed
  ghost cur = 0
extern (*database/sql.Tx).Rollback
  ghost cur = ite(cur == base(arg0), 0, cur)

# Statements of the transaction.
extern (*database/sql.Tx).ExecContext (*database/sql.Tx).Exec (*database/sql.Tx).QueryContext
      (*database/sql.Tx).Query (*database/sql.Tx).PrepareContext (*database/sql.Tx).Prepare
  requires open: cur == base(arg0)
  ghost failed = failed || (cur != 0 && err != nil)
extern (*database/sql.Stmt).ExecContext (*database/sql.Stmt).Exec (*database/sql.Rows).Scan (*database/sql.Row).Scan
  ghost failed = failed || (cur != 0 && err != nil)
extern (ddl.DB).ExecContext (ddl.DB).QueryContext (ddl.DB).PrepareContext
  requires through-tx: cur != 0 ==> typeis(recv, "*database/sql.Tx") && base(as(recv, "*database/sql.Tx")) == cur
  ghost failed = failed || (cur != 0 && err != nil)
# Statements on the bare connection.
extern (*database/sql.DB).ExecContext (*database/sql.DB).Exec (*database/sql.Conn).ExecContext
      (*database/sql.DB).QueryContext (*database/sql.DB).Query (*database/sql.Conn).QueryContext
      (*database/sql.DB).PrepareContext (*database/sql.Conn).PrepareContext
      (*database/sql.DB).QueryRowContext (*database/sql.DB).QueryRow (*database/sql.Conn).QueryRowContext
  requires outside-tx: cur == 0

schema errfunc
  ensures finished: cur == old(cur)
  ensures reported: cur != 0 && failed && !old(failed) ==> err != nil
schema other
  ensures finished: cur == old(cur)
  ensures reported: cur != 0 ==> failed == old(failed)
schema loopfunc
  invariant succeeded: cur != 0 ==> !failed
inline ddl.NewDatabaseIntrospector ddl.closeRows ddl.setSessionValue

# Commands and what they call outside a transaction.
func (*ddl.AutomigrateCmd).Run (*ddl.DumpCmd).Run (*ddl.GenerateCmd).Run (*ddl.GenerateCmd).Results (*ddl.LoadCmd).Run (*ddl.LsCmd).Run
      (*ddl.MigrateCmd).Run (*ddl.MvCmd).Run (*ddl.RmCmd).Run (*ddl.TablesCmd).Run (*ddl.TouchCmd).Run (*ddl.ViewsCmd).Run
      (*ddl.WipeCmd).Run (*ddl.LoadCmd).loadDir (*ddl.LoadCmd).loadTgz (*ddl.LoadCmd).loadZip (*ddl.LoadCmd).loadSQL
      (*ddl.MigrateCmd).run (*ddl.MigrateCmd).runWithRetry (*ddl.MigrateCmd).undo
      (*ddl.DumpCmd).dumpCSV (*ddl.DumpCmd).dumpDir (*ddl.DumpCmd).dumpTgz (*ddl.DumpCmd).dumpZip ddl.AutomigrateCommand
      ddl.GenerateCommand ddl.ensureHistoryTableExists ddl.historyTableExists
      ddl.NewTableStructs ddl.NewViewStructs ddl.newSubsetter ddl.NewInMemorySubsetter ddl.writeCatalog
  requires outside-tx: cur == 0
# loadCSV takes over the transaction it is given and finishes it.
func (*ddl.LoadCmd).loadCSV
  noschema
  requires open: base(tx) != 0 && cur == base(tx) && !failed
  ensures finished: cur == 0
func ddl.getColumnInfo
  requires open: base(tx) != 0 && cur == base(tx)
# Functions that can be used inside or outside a transaction.
func (*ddl.BatchInsert).ExecContext
  requires through-tx: cur != 0 ==> typeis(db, "*database/sql.Tx") && base(as(db, "*database/sql.Tx")) == cur
func (*ddl.DatabaseIntrospector).GetCurrentSchema (*ddl.DatabaseIntrospector).GetDatabaseName
      (*ddl.DatabaseIntrospector).GetDefaultCollation (*ddl.DatabaseIntrospector).GetVersion (*ddl.DatabaseIntrospector).GetVersionNums
      (*ddl.DatabaseIntrospector).queryContext (*ddl.DatabaseIntrospector).GetColumns (*ddl.DatabaseIntrospector).GetConstraints
      (*ddl.DatabaseIntrospector).GetDomains (*ddl.DatabaseIntrospector).GetEnums (*ddl.DatabaseIntrospector).GetExtensions
      (*ddl.DatabaseIntrospector).GetIndexes (*ddl.DatabaseIntrospector).GetRoutines (*ddl.DatabaseIntrospector).GetTables
      (*ddl.DatabaseIntrospector).GetTriggers (*ddl.DatabaseIntrospector).GetViews (*ddl.DatabaseIntrospector).WriteCatalog
  requires through-tx: cur != 0 ==> typeis(arg0.DB, "*database/sql.Tx") && base(as(arg0.DB, "*database/sql.Tx")) == cur
func (*ddl.Subsetter).subset (*ddl.Subsetter).Subset (*ddl.Subsetter).ExtendedSubset
  requires outside-tx: cur == 0
