property C14
option only safety nonil textonly noquant lite
extern (*ddl.CatalogCache).GetSchema (*ddl.CatalogCache).GetTable (*ddl.CatalogCache).GetColumn (*ddl.CatalogCache).GetPrimaryKey (*ddl.CatalogCache).GetOrCreateSchema
      (*ddl.CatalogCache).GetOrCreateTable (*ddl.CatalogCache).GetOrCreateColumn (*ddl.CatalogCache).GetOrCreateConstraint (*ddl.CatalogCache).GetOrCreateIndex
      (*ddl.CatalogCache).GetForeignKeys ddl.QuoteIdentifier ddl.normalizeColumnType ddl.EscapeQuote ddl.GenerateName (*ddl.Modifier).ParseRawValue (*ddl.Modifier).ExcludesDialect
      (ddl.join).toSQL ddl.NewModifiers
  pure
func (*ddl.Subsetter).subset
  requires arg0 != nil
  invariant i_ == -1 || i_ >= 0 && j_ >= i_ + 2 && j_ <= len(query)
  invariant i_ < 0 || i_ < len(r_) && r_[i_] == '{'
  invariant len(r_) <= len(query)
