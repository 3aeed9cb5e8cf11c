property C20
option noquant lite
include handles.inc

schema all
  ensures released: nopen == old(nopen)
  ensures only-own: isopen == old(isopen)
inline ddl.closeRows ddl.setSessionValue ddl.NewDatabaseIntrospector
# Functions that hand a handle to their caller.
func (*ddl.DatabaseIntrospector).queryContext
  noschema
  ensures opened: nopen == old(nopen) + ite(err == nil, 1, 0)
  ensures new: err == nil ==> !get(old(isopen), iface(result0))
  ensures which: isopen == ite(err == nil, put(old(isopen), iface(result0), true), old(isopen))
func (ddl.dirFS).Open
  noschema
  ensures opened: nopen == old(nopen) + ite(err == nil, 1, 0)
# Functions that take over a handle.
func (*ddl.LoadCmd).loadCSV
  noschema
  requires handle: !typeis(arg4, "*ddl.bufferFile")
  ensures released: nopen == old(nopen) - ite(get(old(isopen), arg4) && implements(arg4, "io.ReadCloser"), 1, 0)
  ensures only-own: isopen == ite(implements(arg4, "io.ReadCloser"), put(old(isopen), arg4, false), old(isopen))
func (*ddl.LoadCmd).loadSQL
  noschema
  requires handle: !typeis(arg3, "*ddl.bufferFile")
  ensures released: nopen == old(nopen) - ite(get(old(isopen), arg3) && implements(arg3, "io.ReadCloser"), 1, 0)
  ensures only-own: isopen == ite(implements(arg3, "io.ReadCloser"), put(old(isopen), arg3, false), old(isopen))
# Commands made from arguments own the database handle they opened.
func ddl.AutomigrateCommand ddl.DumpCommand ddl.LoadCommand ddl.LsCommand ddl.MigrateCommand ddl.MvCommand ddl.RmCommand
      ddl.TablesCommand ddl.TouchCommand ddl.ViewsCommand ddl.WipeCommand
  noschema
  ensures owned: err == nil ==> result0.DB != nil && result0.db != "" && result0.Dialect != "" && get(isopen, iface(result0.DB))
      && isopen == put(old(isopen), iface(result0.DB), true) && nopen == old(nopen) + 1
  ensures released: err != nil ==> nopen == old(nopen) && isopen == old(isopen)
func (*ddl.AutomigrateCmd).Run (*ddl.DumpCmd).Run (*ddl.TablesCmd).Run (*ddl.ViewsCmd).Run (*ddl.WipeCmd).Run
      (*ddl.RmCmd).Run
  noschema
  ensures released: nopen == old(nopen) || old(arg0.db) != ""
  ensures own-released: old(arg0.db) != "" && get(old(isopen), iface(old(arg0.DB))) && old(arg0.DB) != nil && old(arg0.Dialect) != "" ==> nopen == old(nopen) - 1
  ensures only-own: isopen == old(isopen) || (old(arg0.db) != "" && isopen == put(old(isopen), iface(old(arg0.DB)), false))
func (*ddl.LoadCmd).Run (*ddl.LsCmd).Run (*ddl.MigrateCmd).Run (*ddl.TouchCmd).Run
  noschema
  ensures released: nopen == old(nopen) || old(arg0.db) != ""
  ensures own-released: old(arg0.db) != "" && get(old(isopen), iface(old(arg0.DB))) && old(arg0.DB) != nil && old(arg0.Dialect) != "" && old(arg0.DirFS) != nil ==> nopen == old(nopen) - 1
  ensures only-own: isopen == old(isopen) || (old(arg0.db) != "" && isopen == put(old(isopen), iface(old(arg0.DB)), false))
func ddl.LoadCommand ddl.LsCommand ddl.MigrateCommand ddl.TouchCommand
  ensures files: err == nil ==> result0.DirFS != nil
skip (*ddl.GenerateCmd).Run
func (*ddl.MvCmd).Run
  noschema
  ensures released: nopen == old(nopen) || old(arg0.db) != ""
  ensures own-released: old(arg0.db) != "" && get(old(isopen), iface(old(arg0.DB))) && old(arg0.DB) != nil && old(arg0.Dialect) != ""
      && old(arg0.SrcFilename) != "" && old(arg0.DestFilename) != "" ==> nopen == old(nopen) - 1
  ensures only-own: isopen == old(isopen) || (old(arg0.db) != "" && isopen == put(old(isopen), iface(old(arg0.DB)), false))
