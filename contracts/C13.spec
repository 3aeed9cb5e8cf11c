property C13
option only nonil safetyfn=(*ddl.BatchInsert).ExecContext,ddl.writeRowValues
# src(n) is the n-th value supplied by the source, counted over all rows.
# supplied: values supplied so far; sent: values sent in INSERT statements so far.
ghost supplied Int
ghost sent Int
# Prepared statements: their placeholders, and whether they insert.
ghost stph (Array Int Int)
ghost stins (Array Int Int)
ghost made (Array Int Bool)
# Columns of a row, the parameters that the database takes at most, and the
# values that the requested batch size allows in one statement.
ghost ncols Int
ghost limit Int
ghost most Int
# Placeholders of a text, fragment by fragment; INSERT and UPDATE statements.
measure ph "?" "$" "@p"
measure ins "INSERT_INTO_"
measure upd "UPDATE_"
#assume a placeholder inside a quoted name is no placeholder (C07), so placeholders can be counted fragment by fragment
extern ddl.QuoteIdentifier
  ensures ph(result) == 0 && ins(result) == 0 && upd(result) == 0
# num: numbered placeholders written so far.
ghost num Int
extern strconv.Itoa
  requires numbered: arg0 == num + 1
  ghost num = num + 1
  ensures ph(result) == 0 && ins(result) == 0 && upd(result) == 0
extern ddl.Sprintf
  ensures true

extern dyn:next
  modifies arg0
  ensures row: forall(c, 0, len(arg0), arg0[c] == uf("src", "Iface", supplied + c))
  ghost supplied = supplied + ite(err == nil, len(arg0), 0)
extern (ddl.DB).PrepareContext
  ghost stph = ite(err == nil, put(stph, base(result0), ph(arg1)), stph)
  ghost stins = ite(err == nil, put(stins, base(result0), ins(arg1)), stins)
  ghost made = ite(err == nil, put(made, base(result0), true), made)
  ensures new: err == nil ==> base(result0) != 0 && !get(old(made), base(result0))
extern (*database/sql.Stmt).ExecContext
  requires placeholders: len(arg2) == get(stph, base(arg0))
  requires rows: forall(k, 0, len(arg2), arg2[k] == uf("src", "Iface", sent + k))
  requires limit: ncols <= limit ==> len(arg2) <= limit
  requires batch: len(arg2) <= most
  ghost sent = sent + ite(get(stins, base(arg0)) > 0, len(arg2), 0)
extern (ddl.DB).ExecContext
  requires placeholders: len(arg2) == ph(arg1)
  requires limit: ins(arg1) + upd(arg1) > 0 && ncols <= limit ==> len(arg2) <= limit
  requires batch: ins(arg1) + upd(arg1) > 0 ==> len(arg2) <= most
  requires rows: ins(arg1) + upd(arg1) > 0 ==> forall(k, 0, len(arg2), arg2[k] == uf("src", "Iface", sent + k))
  ghost sent = sent + ite(ins(arg1) > 0, len(arg2), 0)

func ddl.writeRowValues
  requires numFields > 0
  requires num == 0
  ghost num = 0
  invariant dialect == "postgres" || dialect == "sqlserver" ==> num == i_
  ensures placeholders: ph(content(buf)) == ph(old(content(buf))) + ite(batchsize > 0, batchsize, 0) * numFields
  ensures rest: ins(content(buf)) == ins(old(content(buf))) && upd(content(buf)) == upd(old(content(buf)))
  invariant ph(content(b_)) == ph(old(content(buf))) + i_ * numFields
  invariant ph(content(b_)) == entry(ph(content(b_))) + i_
  invariant ins(content(b_)) == ins(old(content(buf))) && upd(content(b_)) == upd(old(content(buf)))
  invariant i_ <= batchsize || i_ == 0
  invariant i_ <= numFields
  invariant ph(content(b_)) == ph(old(content(buf))) + (i_ - 1) * numFields
  invariant ph(content(b_)) == entry(ph(content(b_))) + i_ - 1
  invariant i_ <= batchsize + 1 || i_ == 1
  invariant i_ <= numFields + 1
func (*ddl.BatchInsert).ExecContext
  requires sent == supplied && num == 0
  requires ncols == len(arg0.Columns) && most == ite(arg0.Batchsize > 0, arg0.Batchsize, 500) * ncols
  requires limit == ite(arg0.Dialect == "sqlite", 32766, ite(arg0.Dialect == "sqlserver", 2100, ite(arg0.Dialect == "postgres" || arg0.Dialect == "mysql", 65535, most)))
  ensures all: err == nil ==> sent == supplied
  invariant ph(content(b_)) == 0
  invariant ins(content(b_)) == 0
  invariant sent + len(s_) == supplied
  invariant len(s_) == i_ * len(arg0.Columns)
  invariant base(s_) != base(u_)
  invariant forall(k, 0, len(s_), s_[k] == uf("src", "Iface", sent + k))
