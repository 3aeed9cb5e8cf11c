property C21
option only lite noquant
# How many objects of each kind the database reports, and how many of them,
ghost n_view Int
ghost n_fk Int
ghost n_tab Int
ghost n_rout Int
ghost n_enum Int
ghost n_dom Int
ghost n_exten Int
ghost sqlite Bool
ghost pg Bool
# wiped: how often the statements were run or shown.
ghost wiped Int
# Statements of a text, fragment by fragment.
measure view "VIEW_"
measure fk "DROP_CONSTRAINT_"
measure tab "DROP_TABLE_"
measure rout "PROCEDURE_" "FUNCTION_"
measure enum "DROP_TYPE_"
measure dom "DROP_DOMAIN_"
measure exten "DROP_EXTENSION_"
measure other "TRUNCATE" "DELETE_FROM" "DROP_SCHEMA" "DROP_DATABASE" "DROP_COLUMN" "DROP_INDEX" "DROP_TRIGGER"
#assume the introspector reports the objects of the database that its filter lets through and leaves the filter alone
extern (*ddl.DatabaseIntrospector).GetViews
  pure
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_view
extern (*ddl.DatabaseIntrospector).GetConstraints
  pure
  requires kind: len(arg0.ConstraintTypes) == 1 && arg0.ConstraintTypes[0] == "FOREIGN KEY"
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_fk
extern (*ddl.DatabaseIntrospector).GetTables
  pure
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_tab
extern (*ddl.DatabaseIntrospector).GetRoutines
  pure
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_rout
extern (*ddl.DatabaseIntrospector).GetEnums
  pure
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_enum
extern (*ddl.DatabaseIntrospector).GetDomains
  pure
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_dom
extern (*ddl.DatabaseIntrospector).GetExtensions
  pure
  requires unfiltered: len(arg0.Schemas) == 0 && len(arg0.ExcludeSchemas) == 0 && len(arg0.Tables) == 0 && len(arg0.ExcludeTables) == 0 && len(arg0.Views) == 0 && len(arg0.ExcludeViews) == 0 && len(arg0.Routines) == 0 && len(arg0.ExcludeRoutines) == 0 && len(arg0.Enums) == 0 && len(arg0.Domains) == 0 && len(arg0.ExcludeExtensions) == 0 && len(arg0.Extensions) == 0
  ensures err == nil ==> len(result0) == n_exten
extern (*ddl.DatabaseIntrospector).GetCurrentSchema
  pure
#assume a keyword inside a quoted name is no keyword (C07), so keywords can be counted fragment by fragment
extern ddl.QuoteIdentifier
  pure
  ensures view(result) == 0 && fk(result) == 0 && tab(result) == 0 && rout(result) == 0 && enum(result) == 0 && dom(result) == 0 && exten(result) == 0 && other(result) == 0
extern (*bytes.Buffer).WriteString
  requires nothing-else: other(arg1) == 0
  requires view-first: view(arg1) > 0 ==> fk(content(arg0)) == 0 && tab(content(arg0)) == 0 && rout(content(arg0)) == 0 && enum(content(arg0)) == 0 && dom(content(arg0)) == 0 && exten(content(arg0)) == 0
  requires fk-first: fk(arg1) > 0 ==> tab(content(arg0)) == 0 && rout(content(arg0)) == 0 && enum(content(arg0)) == 0 && dom(content(arg0)) == 0 && exten(content(arg0)) == 0
  requires tab-first: tab(arg1) > 0 ==> rout(content(arg0)) == 0 && enum(content(arg0)) == 0 && dom(content(arg0)) == 0 && exten(content(arg0)) == 0
  requires rout-first: rout(arg1) > 0 ==> enum(content(arg0)) == 0 && dom(content(arg0)) == 0 && exten(content(arg0)) == 0
extern (*database/sql.Tx).ExecContext (ddl.DB).ExecContext (*database/sql.DB).ExecContext
  requires view-once: view(arg2) == n_view
  requires fk-once: ite(sqlite, fk(arg2) == 0, fk(arg2) == n_fk)
  requires tab-once: tab(arg2) == n_tab
  requires rout-once: ite(sqlite, rout(arg2) == 0, rout(arg2) == n_rout)
  requires enum-once: ite(!pg, enum(arg2) == 0, enum(arg2) == n_enum)
  requires dom-once: ite(!pg, dom(arg2) == 0, dom(arg2) == n_dom)
  requires exten-once: exten(arg2) <= n_exten && (pg || exten(arg2) == 0)
  ghost wiped = wiped + 1
extern (*bytes.Buffer).WriteTo
  requires view-once: view(content(arg0)) == n_view
  requires fk-once: ite(sqlite, fk(content(arg0)) == 0, fk(content(arg0)) == n_fk)
  requires tab-once: tab(content(arg0)) == n_tab
  requires rout-once: ite(sqlite, rout(content(arg0)) == 0, rout(content(arg0)) == n_rout)
  requires enum-once: ite(!pg, enum(content(arg0)) == 0, enum(content(arg0)) == n_enum)
  requires dom-once: ite(!pg, dom(content(arg0)) == 0, dom(content(arg0)) == n_dom)
  requires exten-once: exten(content(arg0)) <= n_exten && (pg || exten(content(arg0)) == 0)
  ghost wiped = wiped + 1
func (*ddl.WipeCmd).Run
  requires sqlite == (arg0.Dialect == "sqlite") && pg == (arg0.Dialect == "postgres") && wiped == 0
  requires n_view >= 0 && n_fk >= 0 && n_tab >= 0 && n_rout >= 0 && n_enum >= 0 && n_dom >= 0 && n_exten >= 0
  ensures once: wiped <= 1
  ensures done: err == nil ==> wiped == 1 || n_view == 0 && n_tab == 0 && (sqlite || n_fk == 0 && n_rout == 0) && (!pg || n_enum == 0 && n_dom == 0)
  invariant view(content(arg0.buf)) == i_
  invariant view(content(arg0.buf)) == entry(view(content(arg0.buf)))
  invariant fk(content(arg0.buf)) == i_
  invariant fk(content(arg0.buf)) == entry(fk(content(arg0.buf)))
  invariant tab(content(arg0.buf)) == i_
  invariant tab(content(arg0.buf)) == entry(tab(content(arg0.buf)))
  invariant rout(content(arg0.buf)) == i_
  invariant rout(content(arg0.buf)) == entry(rout(content(arg0.buf)))
  invariant enum(content(arg0.buf)) == i_
  invariant enum(content(arg0.buf)) == entry(enum(content(arg0.buf)))
  invariant dom(content(arg0.buf)) == i_
  invariant dom(content(arg0.buf)) == entry(dom(content(arg0.buf)))
  invariant exten(content(arg0.buf)) <= i_
  invariant exten(content(arg0.buf)) == entry(exten(content(arg0.buf)))
  invariant i_ >= 0
  invariant i_ <= n_view
  invariant i_ <= n_fk
  invariant i_ <= n_tab
  invariant i_ <= n_rout
  invariant i_ <= n_enum
  invariant i_ <= n_dom
  invariant i_ <= n_exten
