property C06
option only noquant safety nonil overflow safetyfn=MigrateCmd).runWithRetry,MigrateCmd).run
# runs: attempts made so far by the innermost runWithRetry. lasterr: the error
# of the last attempt. lastlock: it was recognised as a lock timeout. bare:
# statements executed, or transactions committed, for good; mark: its value
# before the first attempt. onestmt: the script is a single statement.
# lo, hi: smallest and largest time slept.
ghost runs Int
ghost lasterr Iface
ghost lastlock Bool
ghost bare Int
ghost mark Int
ghost onestmt Bool
ghost intx Int
ghost lo Int
ghost hi Int

extern (*database/sql.Conn).BeginTx (*database/sql.DB).Begin (*database/sql.DB).BeginTx
  ghost intx = ite(err == nil, base(result0), intx)
extern (*database/sql.Tx).Rollback
  ghost intx = ite(base(arg0) == intx, 0, intx)
extern (*database/sql.Tx).Commit
  ghost intx = ite(base(arg0) == intx, 0, intx)
  ghost bare = ite(err == nil, bare + 1, bare)
extern (ddl.DB).ExecContext
  ghost bare = ite(typeis(recv, "*database/sql.Tx") && base(as(recv, "*database/sql.Tx")) == intx, bare, bare + 1)
extern (*database/sql.Conn).ExecContext (*database/sql.DB).ExecContext (*database/sql.DB).Exec
  ghost bare = bare + 1
extern dyn:IsLockTimeout
  ghost lastlock = result && arg0 == lasterr
extern bytes.Count
  ghost onestmt = result == 1
  ensures fits: result <= len(arg0)
extern time.Sleep
  ghost lo = ite(arg0 < lo, arg0, lo)
  ghost hi = ite(arg0 > hi, arg0, hi)
schema errfunc
  ensures any: true
schema other
  ensures any: true
inline ddl.closeRows ddl.setSessionValue
func (*ddl.BatchInsert).ExecContext
  ensures finished: intx == old(intx)
  ensures in-tx: typeis(arg2, "*database/sql.Tx") && base(as(arg2, "*database/sql.Tx")) == intx ==> bare == old(bare)
  invariant in-tx: typeis(arg2, "*database/sql.Tx") && base(as(arg2, "*database/sql.Tx")) == intx ==> bare == old(bare)
func (*ddl.MigrateCmd).run
  requires some: len(arg2) > 0
  requires within-limit: runs == 0 || runs < arg0.MaxAttempts
  requires lock-timeout: runs == 0 || lastlock
  requires nothing-done: runs == 0 || bare == mark || onestmt
  ghost runs = old(runs) + 1
  ghost lasterr = err
  ghost lastlock = false
  ghost mark = ite(old(runs) == 0, old(bare), mark)
  ensures rolled-back: err != nil && old(intx == 0 && (len(arg2) > 1 || !hasSuffix(arg2[0].filename, ".txoff.sql") && arg0.Dialect != "mysql" ||
      hasSuffix(arg2[0].filename, ".tx.sql"))) ==> bare == old(bare)
  ensures finished: old(intx) == 0 ==> intx == 0
  invariant in-tx: intx == old(intx) || bare == old(bare)
  ensures reached: -1 <= result0 && result0 < len(arg2)
func (*ddl.MigrateCmd).runWithRetry
  requires some: len(arg2) > 0
  ghost runs = 0
  requires first: runs == 0 && intx == 0
  ensures finished: intx == 0
  ensures last-result: err == nil ==> lasterr == nil
  ensures delay-at-most: old(arg0.MaxDelay) >= 0 ==> hi <= old(hi) || hi <= old(arg0.MaxDelay)
  invariant last: runs == 0 || lastlock
  invariant count: runs >= 0 && (runs == 0 || runs < arg0.MaxAttempts)
  invariant nothing-done: runs == 0 || bare == mark || onestmt
  invariant finished: intx == 0
  invariant delay-at-most: old(arg0.MaxDelay) >= 0 ==> hi <= old(hi) || hi <= old(arg0.MaxDelay)
  invariant delay-positive: old(arg0.BaseDelay) >= 0 && old(arg0.MaxDelay) >= 0 ==> lo >= old(lo) || lo >= 0
  ensures delay-positive: old(arg0.BaseDelay) >= 0 && old(arg0.MaxDelay) >= 0 ==> lo >= old(lo) || lo >= 0
func (*ddl.MigrateCmd).undo
  ensures kept: arg3 != nil ==> err != nil
func (*ddl.MigrateCmd).Run
  requires first: runs == 0 && intx == 0
