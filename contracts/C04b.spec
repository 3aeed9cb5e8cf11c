property C04
option only
# trace[0..nx): texts sent to the database through a connection or transaction,
# lastfail: number of texts sent when one last failed.
ghost trace (Array Int Str)
ghost nx Int
ghost lastfail Int
extern (io/fs.FS).Open
  ensures text: err == nil ==> uf("text", "Str", ival(result0)) == uf("filetext", "Str", arg0)
extern (ddl.DB).ExecContext
  ghost trace = put(trace, nx, arg1)
  ghost nx = nx + 1
  ghost lastfail = ite(err != nil, nx + 1, lastfail)
extern (*database/sql.Conn).ExecContext (*database/sql.Tx).ExecContext (*database/sql.DB).ExecContext
  ghost trace = put(trace, nx, arg2)
  ghost nx = nx + 1
  ghost lastfail = ite(err != nil, nx + 1, lastfail)
extern (*ddl.BatchInsert).ExecContext
  ensures any: true
func (*ddl.MigrateCmd).run
  requires some: len(arg2) > 0
  requires sent: nx >= 0
  ensures at-most-once: old(nx) <= nx && nx <= old(nx) + len(arg2)
  ensures in-order: forall(n, 0, len(arg2), n < nx - old(nx) ==> get(trace, n + old(nx)) == uf("filetext", "Str", arg2[n].filename))
  ensures none-skipped: err == nil ==> nx == old(nx) + len(arg2)
  ensures stops: lastfail == old(lastfail) || lastfail == nx
  ensures reported: err == nil ==> lastfail == old(lastfail)
  ensures kept: forall(n, 0, old(nx), get(trace, n) == get(old(trace), n))
  invariant at-most-once: nx == old(nx) + i_
  invariant in-order: forall(n, 0, i_, get(trace, n + old(nx)) == uf("filetext", "Str", arg2[n].filename))
  invariant stops: lastfail == old(lastfail)
  invariant kept: forall(n, 0, old(nx), get(trace, n) == get(old(trace), n))
# The last attempt decides: it ran every script, in order, without a failure.
func (*ddl.MigrateCmd).runWithRetry
  requires some: len(arg2) > 0
  requires sent: nx >= 0
  ensures done: err == nil ==> nx >= old(nx) + len(arg2) && lastfail <= nx - len(arg2) &&
      forall(n, 0, len(arg2), get(trace, n + nx - len(arg2)) == uf("filetext", "Str", arg2[n].filename))
  requires past: lastfail <= nx
  invariant past: lastfail <= nx
  invariant sent: nx >= old(nx)
