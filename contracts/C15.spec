property C15
option only safety
# Versions are compared component by component, missing components are zero.
# diff is the first component in which the two differ, or the number of
# components if there is none. A version without components is unknown and
# counts as the newest.
func (ddl.VersionNums).LowerThan (ddl.VersionNums).GreaterOrEqualTo
  requires numbers: forall(n, 0, len(arg0), arg0[n] >= 0) && forall(n, 0, len(arg1), arg1[n] >= 0)
  defines 0 <= uf("diff", "Int", arg0, arg1) && uf("diff", "Int", arg0, arg1) <= ite(len(arg0) < len(arg1), len(arg1), len(arg0))
  defines forall(j, 0, uf("diff", "Int", arg0, arg1), ite(j < len(arg0), arg0[j], 0) == ite(j < len(arg1), arg1[j], 0))
  defines uf("diff", "Int", arg0, arg1) < ite(len(arg0) < len(arg1), len(arg1), len(arg0)) ==>
      ite(uf("diff", "Int", arg0, arg1) < len(arg0), arg0[uf("diff", "Int", arg0, arg1)], 0) !=
      ite(uf("diff", "Int", arg0, arg1) < len(arg1), arg1[uf("diff", "Int", arg0, arg1)], 0)
  invariant same: i_ <= uf("diff", "Int", arg0, arg1)
  invariant rest: len(arg0) + i_ <= uf("diff", "Int", arg0, arg1)
func (ddl.VersionNums).LowerThan
  ensures order: result == (len(arg0) > 0 && uf("diff", "Int", arg0, arg1) < len(arg1) &&
      ite(uf("diff", "Int", arg0, arg1) < len(arg0), arg0[uf("diff", "Int", arg0, arg1)], 0) < arg1[uf("diff", "Int", arg0, arg1)])
func (ddl.VersionNums).GreaterOrEqualTo
  ensures order: result == !(len(arg0) > 0 && uf("diff", "Int", arg0, arg1) < len(arg1) &&
      ite(uf("diff", "Int", arg0, arg1) < len(arg0), arg0[uf("diff", "Int", arg0, arg1)], 0) < arg1[uf("diff", "Int", arg0, arg1)])
