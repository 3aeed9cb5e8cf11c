property C21
option only lite noquant
# Extensions: all that the database reports except plpgsql. skip(k) is how many
# of the first k are plpgsql.
ghost n_exten Int
ghost pg Bool
measure exten "DROP_EXTENSION_"
extern (*ddl.DatabaseIntrospector).GetViews (*ddl.DatabaseIntrospector).GetConstraints (*ddl.DatabaseIntrospector).GetTables (*ddl.DatabaseIntrospector).GetRoutines (*ddl.DatabaseIntrospector).GetEnums (*ddl.DatabaseIntrospector).GetDomains (*ddl.DatabaseIntrospector).GetCurrentSchema
  pure
extern (*ddl.DatabaseIntrospector).GetExtensions
  pure
  ensures err == nil ==> len(result0) == n_exten
  ensures err == nil ==> forall(k, 0, len(result0), uf("skip", "Int", k + 1) == uf("skip", "Int", k) + ite(result0[k] == "plpgsql", 1, 0))
extern ddl.QuoteIdentifier
  pure
  ensures exten(result) == 0
extern (*database/sql.Tx).ExecContext (ddl.DB).ExecContext (*database/sql.DB).ExecContext
  requires extensions: exten(arg2) == ite(pg, n_exten - uf("skip", "Int", n_exten), 0)
extern (*bytes.Buffer).WriteTo
  requires extensions: exten(content(arg0)) == ite(pg, n_exten - uf("skip", "Int", n_exten), 0)
func (*ddl.WipeCmd).Run
  requires pg == (arg0.Dialect == "postgres") && n_exten >= 0 && uf("skip", "Int", 0) == 0
  invariant exten(content(arg0.buf)) == i_ - uf("skip", "Int", i_)
  invariant exten(content(arg0.buf)) == 0
  invariant i_ >= 0
  invariant i_ <= n_exten
