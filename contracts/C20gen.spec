property C20
option lite only
include handles.inc
# Proved in C20.spec.
schema all
  ensures released: nopen == old(nopen)
  ensures only-own: isopen == old(isopen)
# What generate writes: the files of Results live in memory.
func (*ddl.GenerateCmd).Results
  ensures in-memory: forall(i, 0, len(result0), typeis(result0[i], "*ddl.bufferFile"))
  invariant made: forall(k, 0, i_, typeis(s_[k], "*ddl.bufferFile"))
  invariant made: forall(k, 0, i_, typeis(w_[k], "*ddl.bufferFile"))
func (*ddl.GenerateCmd).Run
