property C14
option only safety
func ddl.NewModifiers (ddl.Modifiers).String ddl.popModifier
  ensures true
func ddl.popValue
  ensures true
  invariant len(x_) > 0 && x_[0] == '{' ==> i_ == 0 || i_ >= 2 || j_ > 0
  invariant i_ <= len(x_)
func (*ddl.Modifier).ExcludesDialect (*ddl.Modifier).ParseRawValue (*ddl.Modifier).writeBuf
  requires arg0 != nil
func ddl.isLiteral ddl.wrapBrackets ddl.unwrapBrackets ddl.wrappedInBrackets ddl.splitArgs ddl.normalizeColumnType ddl.normalizeColumnDefault ddl.NormalizeDSN
  ensures true
func ddl.Sprintf ddl.Sprint
  ensures true
func ddl.lookupParam
  requires len(paramName) > 0 && runningArgsIndex >= 0
func (*ddl.Timestamp).Scan
  requires arg0 != nil
func ddl.normalizeFilename ddl.sortAndFilterFilenames ddl.GenerateName
  ensures true
