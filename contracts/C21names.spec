property C21
option only lite noquant
# How many objects of each kind the database reports, and how many of them,
# taken in order, have been named in the statements.
ghost n_view Int
ghost n_fk Int
ghost n_tab Int
ghost n_rout Int
ghost n_enum Int
ghost n_dom Int
ghost n_exten Int
ghost named Int
ghost lastq Str
ghost sqlite Bool
ghost pg Bool
#assume the introspector reports the objects of the database that its filter lets through and leaves the filter alone
extern (*ddl.DatabaseIntrospector).GetViews
  pure
  ensures err == nil ==> len(result0) == n_view
  ensures err == nil ==> forall(k, 0, len(result0), result0[k].ViewName == uf("name", "Str", 0 + k) && result0[k].ViewSchema == uf("schema", "Str", 0 + k))
extern (*ddl.DatabaseIntrospector).GetConstraints
  pure
  ensures err == nil ==> len(result0) == n_fk
  ensures err == nil ==> forall(k, 0, len(result0), result0[k].ConstraintName == uf("name", "Str", n_view + k) && uf("schema", "Str", n_view + k) == "")
extern (*ddl.DatabaseIntrospector).GetTables
  pure
  ensures err == nil ==> len(result0) == n_tab
  ensures err == nil ==> forall(k, 0, len(result0), result0[k].TableName == uf("name", "Str", n_view + ite(sqlite, 0, n_fk) + k) && result0[k].TableSchema == uf("schema", "Str", n_view + ite(sqlite, 0, n_fk) + k))
extern (*ddl.DatabaseIntrospector).GetRoutines
  pure
  ensures err == nil ==> len(result0) == n_rout
  ensures err == nil ==> forall(k, 0, len(result0), result0[k].RoutineName == uf("name", "Str", n_view + n_tab + ite(sqlite, 0, n_fk) + k) && result0[k].RoutineSchema == uf("schema", "Str", n_view + n_tab + ite(sqlite, 0, n_fk) + k))
extern (*ddl.DatabaseIntrospector).GetEnums
  pure
  ensures err == nil ==> len(result0) == n_enum
  ensures err == nil ==> forall(k, 0, len(result0), result0[k].EnumName == uf("name", "Str", n_view + n_tab + n_fk + n_rout + k) && result0[k].EnumSchema == uf("schema", "Str", n_view + n_tab + n_fk + n_rout + k))
extern (*ddl.DatabaseIntrospector).GetDomains
  pure
  ensures err == nil ==> len(result0) == n_dom
  ensures err == nil ==> forall(k, 0, len(result0), result0[k].DomainName == uf("name", "Str", n_view + n_tab + n_fk + n_rout + n_enum + k) && result0[k].DomainSchema == uf("schema", "Str", n_view + n_tab + n_fk + n_rout + n_enum + k))
extern (*ddl.DatabaseIntrospector).GetExtensions
  pure
  ensures err == nil ==> len(result0) == n_exten
extern (*ddl.DatabaseIntrospector).GetCurrentSchema
  pure
  ensures err == nil ==> result0 == uf("cur", "Str", 0)
extern ddl.QuoteIdentifier
  pure
  ghost named = named + ite(arg1 == uf("name", "Str", named) && (uf("schema", "Str", named) == "" || uf("schema", "Str", named) == uf("cur", "Str", 0) || lastq == uf("schema", "Str", named)), 1, 0)
  ghost lastq = arg1
extern (*database/sql.Tx).ExecContext (ddl.DB).ExecContext (*database/sql.DB).ExecContext
  requires all: named >= n_view + n_tab + ite(sqlite, 0, n_fk + n_rout) + ite(pg, n_enum + n_dom, 0)
extern (*bytes.Buffer).WriteTo
  requires all: named >= n_view + n_tab + ite(sqlite, 0, n_fk + n_rout) + ite(pg, n_enum + n_dom, 0)
func (*ddl.WipeCmd).Run

  requires sqlite == (arg0.Dialect == "sqlite") && pg == (arg0.Dialect == "postgres")
  requires n_view >= 0 && n_fk >= 0 && n_tab >= 0 && n_rout >= 0 && n_enum >= 0 && n_dom >= 0 && n_exten >= 0 && named == 0
  invariant named >= 0 + i_
  invariant named >= n_view + i_
  invariant named >= n_view + ite(sqlite, 0, n_fk) + i_
  invariant named >= n_view + n_tab + ite(sqlite, 0, n_fk) + i_
  invariant named >= n_view + n_tab + n_fk + n_rout + i_
  invariant named >= n_view + n_tab + n_fk + n_rout + n_enum + i_
  invariant i_ >= 0
  invariant named >= entry(named)
