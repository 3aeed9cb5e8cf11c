property C04
option only
# names: the list the migrations were selected from; pos(names, f): position of
# file f in the selection. histok[f], histsum[f]: the history table records
# file f as successful, and with which checksum. ran[t]: a script with text t
# was executed without error. upto: position after the last file handed over.
ghost names Slice
ghost histok (Array Str Bool)
ghost histsum (Array Str Str)
ghost ran (Array Str Bool)
ghost hashed Str
ghost upto Int
extern path/filepath.ToSlash
  ensures same: result == uf("slash", "Str", arg0)
extern path/filepath.Base path.Base
  ensures same: result == uf("basename", "Str", arg0)
extern (io/fs.FS).Open
  ensures text: err == nil ==> uf("text", "Str", ival(result0)) == uf("filetext", "Str", arg0)
extern crypto/sha256.Sum256
  ghost hashed = textof(arg0)
extern encoding/hex.EncodeToString
  ensures same: result == uf("checksum", "Str", hashed)
extern (ddl.DB).ExecContext
  ghost ran = ite(err == nil, put(ran, arg1, true), ran)
extern (*database/sql.Conn).ExecContext (*database/sql.Tx).ExecContext (*database/sql.DB).ExecContext
  ghost ran = ite(err == nil, put(ran, arg2, true), ran)
extern (*ddl.BatchInsert).ExecContext
  ensures any: true
extern ddl.ensureHistoryTableExists
  ensures any: true
extern (*database/sql.Rows).Scan
  ghost histok = ite(err == nil, put(histok, va0.String, va4.Bool), histok)
  ghost histsum = ite(err == nil, put(histsum, va0.String, va1.String), histsum)
func ddl.sortAndFilterFilenames
  ghost names = arg0
  define-here forall(n, 0, len(arg0), 0 <= uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) && uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) <= n &&
      uf("slash", "Str", arg0[uf("least", "Int", arg0, uf("slash", "Str", arg0[n]))]) == uf("slash", "Str", arg0[n]))
  define-here forall(n, 0, len(arg0), uf("keep", "Bool", arg0, n) == (hasSuffix(uf("slash", "Str", arg0[n]), ".sql") && !hasSuffix(uf("slash", "Str", arg0[n]), ".undo.sql") &&
      uf("basename", "Str", uf("slash", "Str", arg0[n])) != "schema.sql" && uf("basename", "Str", uf("slash", "Str", arg0[n])) != "indexes.sql" &&
      uf("basename", "Str", uf("slash", "Str", arg0[n])) != "constraints.sql" && uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) == n))
  define-here forall(n, 0, len(arg0), uf("nv", "Int", arg0, n + 1) == uf("nv", "Int", arg0, n) + ite(uf("keep", "Bool", arg0, n) && !hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/"), 1, 0))
  define-here forall(n, 0, len(arg0), uf("nr", "Int", arg0, n + 1) == uf("nr", "Int", arg0, n) + ite(uf("keep", "Bool", arg0, n) && hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/"), 1, 0))
  define-here uf("nv", "Int", arg0, 0) == 0 && uf("nr", "Int", arg0, 0) == 0
  define-here forall(n, 0, len(arg0), uf("pos", "Int", arg0, uf("slash", "Str", arg0[n])) == ite(hasPrefix(uf("slash", "Str", arg0[n]), "repeatable/"),
      uf("nv", "Int", arg0, len(arg0)) + uf("nr", "Int", arg0, uf("least", "Int", arg0, uf("slash", "Str", arg0[n]))),
      uf("nv", "Int", arg0, uf("least", "Int", arg0, uf("slash", "Str", arg0[n])))))
  ensures distinct: forall(n, 0, len(result), uf("pos", "Int", arg0, result[n]) == n)
  invariant nv: len(s_) == uf("nv", "Int", arg0, i_)
  invariant nr: len(s_) == uf("nr", "Int", arg0, i_)
  invariant seen: forall(n, 0, i_, uf("keep", "Bool", arg0, n) ==> m_[uf("slash", "Str", arg0[n])])
  invariant seen-here: forall(n, 0, len(arg0), m_[uf("slash", "Str", arg0[n])] ==> uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) < i_)
  invariant has: forall(n, 0, i_, uf("keep", "Bool", arg0, n) ==> has(m_, uf("slash", "Str", arg0[n])))
  invariant has-here: forall(n, 0, len(arg0), has(m_, uf("slash", "Str", arg0[n])) ==> uf("least", "Int", arg0, uf("slash", "Str", arg0[n])) < i_)
  invariant pos: forall(n, 0, len(s_), uf("pos", "Int", arg0, s_[n]) == n)
  invariant pos-after: forall(n, 0, len(s_), uf("pos", "Int", arg0, s_[n]) == n + uf("nv", "Int", arg0, len(arg0)))
func (*ddl.MigrateCmd).run
  ensures done: err == nil ==> forall(n, 0, len(arg2), get(ran, uf("filetext", "Str", arg2[n].filename)))
  ensures kept: forall(f, "Str", get(old(ran), f) ==> get(ran, f))
  invariant done: forall(n, 0, i_, get(ran, uf("filetext", "Str", arg2[n].filename)))
  invariant kept: forall(f, "Str", get(old(ran), f) ==> get(ran, f))
func (*ddl.MigrateCmd).runWithRetry
  requires some: len(arg2) > 0
  requires pending: forall(n, 0, len(arg2), !get(histok, arg2[n].filename) || hasPrefix(arg2[n].filename, "repeatable/") &&
      uf("checksum", "Str", replaceAll(uf("filetext", "Str", arg2[n].filename), "\r\n", "\n")) != get(histsum, arg2[n].filename))
  requires after: forall(n, 0, len(arg2), uf("pos", "Int", names, arg2[n].filename) >= upto)
  requires in-order: forall(n, 1, len(arg2), uf("pos", "Int", names, arg2[n-1].filename) < uf("pos", "Int", names, arg2[n].filename))
  ghost upto = uf("pos", "Int", names, old(arg2[len(arg2)-1].filename)) + 1
  ensures done: err == nil ==> forall(n, 0, len(arg2), get(ran, uf("filetext", "Str", arg2[n].filename)))
  ensures kept: forall(f, "Str", get(old(ran), f) ==> get(ran, f))
  invariant kept: forall(f, "Str", get(old(ran), f) ==> get(ran, f))
func (*ddl.MigrateCmd).Run
  requires start: histok == none("(Array Str Bool)") && upto <= 0
  ensures none-skipped: err == nil ==> forall(n, 0, len(arg0.Filenames), get(ran, uf("filetext", "Str", arg0.Filenames[n])) ||
      get(histok, arg0.Filenames[n]) && (hasPrefix(arg0.Filenames[n], "repeatable/") ==>
      uf("checksum", "Str", replaceAll(uf("filetext", "Str", arg0.Filenames[n]), "\r\n", "\n")) == get(histsum, arg0.Filenames[n])))
  invariant fill: forall(n, 0, i_, w_[n].filename == arg0.Filenames[n] && !w_[n].valid && !w_[n].success)
  invariant cache: forall(n, 0, i_, has(m_, arg0.Filenames[n]) && m_[arg0.Filenames[n]] == n)
  invariant cache-only: forall(f, "Str", has(m_, f) ==> 0 <= m_[f] && m_[f] < i_ && arg0.Filenames[m_[f]] == f)
  invariant names: forall(n, 0, len(arg0.Filenames), u_[n].filename == arg0.Filenames[n])
  invariant history: forall(n, 0, len(arg0.Filenames), (u_[n].valid && u_[n].success) == get(histok, arg0.Filenames[n]))
  invariant checksum: forall(n, 0, len(arg0.Filenames), u_[n].valid ==> u_[n].checksum == get(histsum, arg0.Filenames[n]))
  invariant pending: forall(n, 0, len(s_), !get(histok, s_[n].filename) || hasPrefix(s_[n].filename, "repeatable/") &&
      uf("checksum", "Str", replaceAll(uf("filetext", "Str", s_[n].filename), "\r\n", "\n")) != get(histsum, s_[n].filename))
  invariant after: forall(n, 0, len(s_), uf("pos", "Int", names, s_[n].filename) >= upto && uf("pos", "Int", names, s_[n].filename) < i_)
  invariant in-order: forall(n, 1, len(s_), uf("pos", "Int", names, s_[n-1].filename) < uf("pos", "Int", names, s_[n].filename))
  invariant upto: upto <= i_
  invariant none-skipped: forall(n, 0, i_, get(ran, uf("filetext", "Str", arg0.Filenames[n])) ||
      get(histok, arg0.Filenames[n]) && (hasPrefix(arg0.Filenames[n], "repeatable/") ==>
      uf("checksum", "Str", replaceAll(uf("filetext", "Str", arg0.Filenames[n]), "\r\n", "\n")) == get(histsum, arg0.Filenames[n])) ||
      exists(k, 0, len(s_), s_[k].filename == arg0.Filenames[n]))
