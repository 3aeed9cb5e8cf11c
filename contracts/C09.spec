property C09
option only lite noquant
# allowed: dropping was requested.
ghost allowed Bool
# created: names of the tables and schemas that the migration itself creates.
ghost created (Array Str Bool)
measure drop const "DROP_TABLE" "DROP_COLUMN" "DROP_SCHEMA" "DROP_VIEW" "DROP_FUNCTION" "DROP_PROCEDURE" "DROP_DATABASE" "TRUNCATE" "DELETE_FROM"
# cre: names of created objects in a text.
measure cre
extern ddl.QuoteIdentifier
  ensures get(created, arg1) ==> cre(result) >= 1
extern (*bytes.Buffer).WriteString
  requires drops: drop(arg1) > 0 ==> allowed || cre(arg1) > 0

#assume building a catalog cache and looking up objects in it, normalising column types and defaults, and fmt.Sprintf change neither catalogs nor migrations
extern ddl.NewCatalogCache (*ddl.CatalogCache).GetSchema (*ddl.CatalogCache).GetTable (*ddl.CatalogCache).GetColumn (*ddl.CatalogCache).GetConstraint (*ddl.CatalogCache).GetIndex (*ddl.CatalogCache).GetForeignKeys (*ddl.CatalogCache).GetPrimaryKey
  pure
#assume filling catalogs from a database or from files and running the migration leave the command's options alone
extern ddl.writeCatalog (*ddl.DatabaseIntrospector).WriteCatalog (*ddl.MigrateCmd).Run
  pure
extern ddl.normalizeColumnType ddl.normalizeColumnDefault ddl.isVirtualTable
  pure
extern (ddl.VersionNums).LowerThan (ddl.VersionNums).GreaterOrEqualTo
  pure

func ddl.newMySQLMigration
  requires requested: dropObjects ==> allowed
  ensures tables: !dropObjects ==> len(result.dropTables) == 0 && len(result.dropSchemas) == 0 && len(result.dropFkeys) == 0
  ensures columns: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropColumns) == 0)
  ensures indexes: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropIndexes) == 0)
  ensures constraints: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropConstraints) <= len(result.alterTables[k].addConstraints))
  invariant !dropObjects ==> len(a_.dropTables) == 0
  invariant !dropObjects ==> len(a_.dropSchemas) == 0
  invariant !dropObjects ==> len(a_.dropFkeys) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropColumns) == 0)
  invariant !dropObjects ==> len(a_.dropColumns) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropIndexes) == 0)
  invariant !dropObjects ==> len(a_.dropIndexes) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropConstraints) <= len(a_.alterTables[k].addConstraints))
  invariant !dropObjects ==> len(a_.dropConstraints) <= len(a_.addConstraints)
func ddl.newSQLiteMigration
  requires requested: dropObjects ==> allowed
  ensures tables: !dropObjects ==> len(result.dropTables) == 0
  ensures columns: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropColumns) == 0)
  ensures indexes: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropIndexes) == 0)
  ensures rebuilds: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].alterColumns) == 0 && len(result.alterTables[k].dropConstraints) == 0 && len(result.alterTables[k].addConstraints) == 0)
  invariant !dropObjects ==> len(a_.dropTables) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropColumns) == 0)
  invariant !dropObjects ==> len(a_.dropColumns) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropIndexes) == 0)
  invariant !dropObjects ==> len(a_.dropIndexes) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].alterColumns) == 0 && len(a_.alterTables[k].dropConstraints) == 0 && len(a_.alterTables[k].addConstraints) == 0)
  invariant !dropObjects ==> len(a_.alterColumns) == 0
  invariant !dropObjects ==> len(a_.dropConstraints) == 0
  invariant !dropObjects ==> len(a_.addConstraints) == 0
func ddl.newPostgresMigration
  requires requested: dropObjects ==> allowed
  ensures tables: !dropObjects ==> len(result.dropTables) == 0 && len(result.dropSchemas) == 0 && len(result.dropFkeys) == 0
  ensures columns: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropColumns) == 0)
  ensures indexes: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropIndexes) == 0)
  ensures constraints: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropConstraints) <= len(result.alterTables[k].addConstraintsConcurrently))
  invariant !dropObjects ==> len(a_.dropTables) == 0
  invariant !dropObjects ==> len(a_.dropSchemas) == 0
  invariant !dropObjects ==> len(a_.dropFkeys) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropColumns) == 0)
  invariant !dropObjects ==> len(a_.dropColumns) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropIndexes) == 0)
  invariant !dropObjects ==> len(a_.dropIndexes) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropConstraints) <= len(a_.alterTables[k].addConstraintsConcurrently))
  invariant !dropObjects ==> len(a_.dropConstraints) <= len(a_.addConstraintsConcurrently)
  invariant p_ ==> len(a_.addConstraintsConcurrently) > 0
  invariant !dropObjects ==> len(a_.dropConstraints) == 0
func ddl.newSQLServerMigration
  requires requested: dropObjects ==> allowed
  ensures tables: !dropObjects ==> len(result.dropTables) == 0 && len(result.dropSchemas) == 0
  ensures columns: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropColumns) == 0)
  ensures indexes: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropIndexes) <= len(result.alterTables[k].createIndexes))
  ensures constraints: !dropObjects ==> forall(k, 0, len(result.alterTables), len(result.alterTables[k].dropConstraints) <= len(result.alterTables[k].addConstraints) + 1)
  invariant !dropObjects ==> len(a_.dropTables) == 0
  invariant !dropObjects ==> len(a_.dropSchemas) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropColumns) == 0)
  invariant !dropObjects ==> len(a_.dropColumns) == 0
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropIndexes) <= len(a_.alterTables[k].createIndexes))
  invariant !dropObjects ==> len(a_.dropIndexes) <= len(a_.createIndexes)
  invariant !dropObjects ==> forall(k, 0, len(a_.alterTables), len(a_.alterTables[k].dropConstraints) <= len(a_.alterTables[k].addConstraints) + 1)
  invariant !dropObjects ==> len(a_.dropConstraints) <= len(a_.addConstraints) + 1
  invariant !dropObjects ==> len(a_.dropConstraints) == 0
  invariant !dropObjects ==> len(a_.dropIndexes) == 0

# Writers: texts are written only for what the lists hold.
func (*ddl.mysqlMigration).sql
  requires allowed || len(m.dropTables) == 0 && len(m.dropSchemas) == 0 && forall(k, 0, len(m.alterTables), len(m.alterTables[k].dropColumns) == 0)
  define-here forall(k, 0, len(m.createTables), get(created, m.createTables[k].TableName)) && forall(k, 0, len(m.createSchemas), get(created, m.createSchemas[k]))
  invariant i_ >= 0
  invariant cap(s_) == 0 || base(s_) != base(m.createSchemas)
  invariant forall(k, 0, len(m.createSchemas), get(created, m.createSchemas[k]))
func (*ddl.postgresMigration).sql
  requires allowed || len(m.dropTables) == 0 && len(m.dropSchemas) == 0 && forall(k, 0, len(m.alterTables), len(m.alterTables[k].dropColumns) == 0)
func (*ddl.sqlserverMigration).sql
  requires allowed || len(m.dropTables) == 0 && len(m.dropSchemas) == 0 && forall(k, 0, len(m.alterTables), len(m.alterTables[k].dropColumns) == 0)
func (*ddl.sqliteMigration).sql
  requires allowed || len(m.dropTables) == 0 && forall(k, 0, len(m.alterTables), len(m.alterTables[k].dropColumns) == 0 && len(m.alterTables[k].alterColumns) == 0 && len(m.alterTables[k].dropConstraints) == 0 && len(m.alterTables[k].addConstraints) == 0)
  invariant allowed || !p_
  invariant allowed || forall(k, 0, len(w_), !w_[k])
func (*ddl.sqliteAlterTable).copyTable
  requires rebuild: allowed
func ddl.writeCreateTable ddl.writeCreateIndex ddl.writeColumnDefinition ddl.writeIndexDefinition ddl.writeConstraintDefinition
  ensures true

# Commands: what may be dropped is what the caller asked for.
func (*ddl.GenerateCmd).Results (*ddl.AutomigrateCmd).Run
  requires allowed == cmd.DropObjects
