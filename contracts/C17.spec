property C17
option only safety
extern path/filepath.ToSlash
  ensures same: result == uf("slash", "Str", arg0)
extern path/filepath.Base path.Base
  ensures same: result == uf("basename", "Str", arg0)
# For entry n of the list: script, it names a migration script; repeatable, it
# is in the directory for those; first, the name does not occur before (least:
# first entry with that name). nv, nr: versioned and repeatable scripts to keep
# before entry n.
func ddl.sortAndFilterFilenames
  deterministic
  defines forall(n, 0, len(arg0), uf("script", "Bool", arg0, n) == (hasSuffix(uf("slash", "Str", arg0[n]), ".sql") && !hasSuffix(uf("slash", "Str", arg0[n]), ".undo.sql") &&
      uf("basename", "Str", uf("slash", "Str", arg0[n])) != "schema.sql" && uf("basename", "Str", uf("slash", "Str", arg0[n])) != "indexes.sql" &&
      uf("basename", "Str", uf("slash", "Str", arg0[n])) != "constraints.sql"))
  defines forall(n, 0, len(arg0), 0 <= uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) && uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) <= n &&
      uf("slash", "Str", arg0[uf("least", "Int", arg0, uf("slash", "Str", arg0[n]))]) == uf("slash", "Str", arg0[n]))
  defines forall(n, 0, len(arg0), uf("keep", "Bool", arg0, n) == (uf("script", "Bool", arg0, n) && uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) == n))
  defines forall(n, 0, len(arg0), uf("nv", "Int", arg0, n + 1) == uf("nv", "Int", arg0, n) + ite(uf("keep", "Bool", arg0, n) && !hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/"), 1, 0))
  defines forall(n, 0, len(arg0), uf("nr", "Int", arg0, n + 1) == uf("nr", "Int", arg0, n) + ite(uf("keep", "Bool", arg0, n) && hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/"), 1, 0))
  defines uf("nv", "Int", arg0, 0) == 0 && uf("nr", "Int", arg0, 0) == 0
  ensures count: len(result) == uf("nv", "Int", arg0, len(arg0)) + uf("nr", "Int", arg0, len(arg0))
  ensures versioned: forall(n, 0, len(arg0), uf("keep", "Bool", arg0, n) && !hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/") ==>
      result[uf("nv", "Int", arg0, n)] == uf("slash", "Str", arg0[n]))
  ensures repeatable: forall(n, 0, len(arg0), uf("keep", "Bool", arg0, n) && hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/") ==>
      result[uf("nv", "Int", arg0, len(arg0)) + uf("nr", "Int", arg0, n)] == uf("slash", "Str", arg0[n]))
  invariant nv: len(s_) == uf("nv", "Int", arg0, i_)
  invariant nr: len(s_) == uf("nr", "Int", arg0, i_)
  invariant seen: forall(n, 0, i_, uf("script", "Bool", arg0, n) ==> m_[uf("slash", "Str", arg0[n])])
  invariant seen-here: forall(n, 0, len(arg0), m_[uf("slash", "Str", arg0[n])] ==> uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) < i_)
  invariant has: forall(n, 0, i_, uf("script", "Bool", arg0, n) ==> has(m_, uf("slash", "Str", arg0[n])))
  invariant has-here: forall(n, 0, len(arg0), has(m_, uf("slash", "Str", arg0[n])) ==> uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) < i_)
  invariant versioned: forall(n, 0, i_, uf("keep", "Bool", arg0, n) && !hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/") ==>
      0 <= uf("nv", "Int", arg0, n) && uf("nv", "Int", arg0, n) < len(s_) && s_[uf("nv", "Int", arg0, n)] == uf("slash", "Str", arg0[n]))
  invariant repeatable: forall(n, 0, i_, uf("keep", "Bool", arg0, n) && hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/") ==>
      0 <= uf("nr", "Int", arg0, n) && uf("nr", "Int", arg0, n) < len(s_) && s_[uf("nr", "Int", arg0, n)] == uf("slash", "Str", arg0[n]))
