# nopen: how many handles (database handles, connections, prepared statements,
# result sets, files) have been opened and not closed yet; isopen: which.
ghost nopen Int
ghost isopen (Array Iface Bool)

extern (*database/sql.DB).Query (*database/sql.DB).QueryContext (*database/sql.Conn).QueryContext (*database/sql.Tx).QueryContext (*database/sql.Tx).Query
      (*database/sql.DB).Prepare (*database/sql.DB).PrepareContext (*database/sql.Conn).PrepareContext (*database/sql.Tx).PrepareContext
      (*database/sql.DB).Conn os.Open os.OpenFile os.Create database/sql.Open (ddl.DB).QueryContext (ddl.DB).PrepareContext
  ensures new: err == nil ==> !get(old(isopen), iface(result0)) && base(result0) != 0
  ghost nopen = nopen + ite(err == nil, 1, 0)
  ghost isopen = ite(err == nil, put(isopen, iface(result0), true), isopen)
extern (io/fs.FS).Open (*archive/zip.File).Open
  ensures new: err == nil ==> !get(old(isopen), result0) && result0 != nil && implements(result0, "io.ReadCloser")
      && !typeis(result0, "*ddl.bufferFile")
  ghost nopen = nopen + ite(err == nil, 1, 0)
  ghost isopen = ite(err == nil, put(isopen, result0, true), isopen)

extern (*database/sql.Rows).Close (*database/sql.Stmt).Close (*database/sql.Conn).Close (*database/sql.DB).Close (*os.File).Close
  ghost nopen = nopen - ite(get(isopen, iface(arg0)), 1, 0)
  ghost isopen = put(isopen, iface(arg0), false)
# (A bufferFile is memory only and counts as no handle.)
extern (io/fs.File).Close (io.Closer).Close (io.ReadCloser).Close (io.WriteCloser).Close
  ghost nopen = nopen - ite(get(isopen, recv) && !typeis(recv, "*ddl.bufferFile"), 1, 0)
  ghost isopen = ite(typeis(recv, "*ddl.bufferFile"), isopen, put(isopen, recv, false))
# Reading past the last row closes the result set.
extern (*database/sql.Rows).Next
  ghost nopen = nopen - ite(!result && get(isopen, iface(arg0)), 1, 0)
  ghost isopen = ite(result, isopen, put(isopen, iface(arg0), false))
