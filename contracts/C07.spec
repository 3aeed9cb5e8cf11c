property C07
option only safety
# doubled(s, q) stands for the text s with every q doubled; contracts/C07.lean
# proves that a lexer reading up to the first undoubled q gets back exactly s.
# s.ofrune(q) is the one-character text of q.
func ddl.EscapeQuote
  requires ascii: arg1 < 128
  ensures doubled: result == replaceAll(arg0, uf("s.ofrune", "Str", arg1), uf("s.ofrune", "Str", arg1) + uf("s.ofrune", "Str", arg1))
func ddl.QuoteIdentifier
  deterministic
  # word: every lexer reads the text as itself, without quotes.
  defines uf("word", "Bool", arg1) == (arg1 == "EXCLUDED" || arg1 == "INSERTED" || arg1 == "DELETED" || arg1 == "NEW" || arg1 == "OLD" ||
      len(arg1) > 0 && (arg1[0] < '0' || arg1[0] > '9') &&
      forall(n, 0, len(arg1), arg1[n] == '_' || arg1[n] >= '0' && arg1[n] <= '9' || arg1[n] >= 'a' && arg1[n] <= 'z'))
  ensures mysql: arg0 == DialectMySQL ==> result == arg1 && uf("word", "Bool", arg1) ||
      result == "`" + replaceAll(arg1, uf("s.ofrune", "Str", '`'), uf("s.ofrune", "Str", '`') + uf("s.ofrune", "Str", '`')) + "`"
  ensures sqlserver: arg0 == DialectSQLServer ==> result == arg1 && uf("word", "Bool", arg1) ||
      result == "[" + replaceAll(arg1, uf("s.ofrune", "Str", ']'), uf("s.ofrune", "Str", ']') + uf("s.ofrune", "Str", ']')) + "]"
  ensures standard: arg0 != DialectMySQL && arg0 != DialectSQLServer ==> result == arg1 && uf("word", "Bool", arg1) ||
      result == "\"" + replaceAll(arg1, uf("s.ofrune", "Str", '"'), uf("s.ofrune", "Str", '"') + uf("s.ofrune", "Str", '"')) + "\""
  invariant word: forall(n, 0, i_, arg1[n] == '_' || arg1[n] >= '0' && arg1[n] <= '9' || arg1[n] >= 'a' && arg1[n] <= 'z')
  invariant first: i_ > 0 ==> arg1[0] < '0' || arg1[0] > '9'
# Texts with line breaks are assembled from such literals and CHAR(n) calls; that
# part of Sprint is outside this contract.
extern strings.IndexAny
  ensures same: result == uf("indexAny", "Int", arg0, arg1)
func ddl.Sprint
  ensures text: typeis(arg1, "string") && uf("indexAny", "Int", as(arg1, "string"), "\r\n") < 0 ==>
      err == nil && result0 == "'" + replaceAll(as(arg1, "string"), "'", "''") + "'"
  ensures null: tag(arg1) == 0 ==> result0 == "NULL"
