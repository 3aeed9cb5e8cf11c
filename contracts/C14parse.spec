property C14
option only safety nonil
extern (*ddl.CatalogCache).GetSchema (*ddl.CatalogCache).GetTable (*ddl.CatalogCache).GetColumn (*ddl.CatalogCache).GetPrimaryKey (*ddl.CatalogCache).GetOrCreateSchema
      (*ddl.CatalogCache).GetOrCreateTable (*ddl.CatalogCache).GetOrCreateColumn (*ddl.CatalogCache).GetOrCreateConstraint (*ddl.CatalogCache).GetOrCreateIndex
      (*ddl.CatalogCache).GetForeignKeys ddl.QuoteIdentifier ddl.normalizeColumnType ddl.EscapeQuote ddl.GenerateName (*ddl.Modifier).ParseRawValue (*ddl.Modifier).ExcludesDialect
      (ddl.join).toSQL ddl.NewModifiers
  pure
func (*ddl.StructParser).parseIndexModifier (*ddl.StructParser).parsePrimaryKeyUniqueModifier (*ddl.StructParser).parseForeignKeyModifier
      (*ddl.StructParser).parseReferencesModifier (*ddl.StructParser).parseColumnModifiers (*ddl.StructParser).parseTableModifiers
  requires made: arg0 != nil && arg0.locations != nil && arg0.columnExplicitType != nil
func (*ddl.StructParser).VisitNode (*ddl.StructParser).VisitStruct (*ddl.StructParser).ParseFile (*ddl.StructParser).WriteCatalog
      (*ddl.StructParser).report (*ddl.StructParser).Diagnostics (*ddl.StructParser).Error
  requires arg0 != nil
#assume parsing the value of a nested modifier does not change the list that contains it
#assume a struct parser is made by NewStructParser, which makes its maps
