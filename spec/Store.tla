------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The recorder and the databases behind it.  Values are named by numbers  *)
(* (position in an ordered table of values of the column's type).          *)
(*   x.rec  recorders [dump, inj, buf, backs, open]                        *)
(*   x.bk   backends [kind, rows, keep, fb]: everything each has been given *)
(*          and kept.  A backend in memory keeps all tables or some, and may *)
(*          have another to fall back on (0: none).                        *)
(*   x.tabs table name -> column names                                     *)
(* A row is [tab, sim, v]; sim is the recorder's number, 0 when it does    *)
(* not put its identity on the rows.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

X0 == [rec |-> <<>>, bk |-> <<>>, tabs |-> <<>>, exp |-> <<>>]

NewRec(x, dump, inj) == [x EXCEPT !.rec = Append(@, [dump |-> dump, inj |-> inj, buf |-> <<>>, backs |-> <<>>, open |-> TRUE])]
NewBackOver(x, kind, fb) == [x EXCEPT !.bk = Append(@, [kind |-> kind, rows |-> <<>>, keep |-> [all |-> TRUE, set |-> {}], fb |-> fb]), !.exp = Append(@, <<>>)]
NewBack(x, kind) == NewBackOver(x, kind, 0)
Kept(keep, tab) == keep.all \/ tab \in keep.set
Keeping(keep, rows) == IF keep.all THEN rows ELSE SelectSeq(rows, LAMBDA r : r.tab \in keep.set)
(* what a backend keeps from now on; of what it has, the rest goes *)
SetKeep(x, b, keep) == [x EXCEPT !.bk[b].keep = keep, !.bk[b].rows = Keeping(keep, @)]
Register(x, r, b) == [x EXCEPT !.rec[r].backs = Append(@, b)]

(* hand rows to every backend of recorder r, in order *)
Give(x, b, rows, fl) ==
  [x EXCEPT !.bk[b].rows = @ \o Keeping(x.bk[b].keep, rows),
            !.exp[b] = IF x.bk[b].kind = "cap" THEN @ \o <<[op |-> "notify", rows |-> rows]>> \o (IF fl THEN <<[op |-> "bflush", rows |-> <<>>]>> ELSE <<>>)
                       ELSE @]
Deliver(x, r, fl) ==
  LET rows == x.rec[r].buf IN
  [FoldLeft(LAMBDA y, b : Give(y, b, rows, fl), x, x.rec[r].backs) EXCEPT !.rec[r].buf = <<>>]

Batch(d) == IF d < 1 THEN 1 ELSE d
Record(x, r, tab, v) ==
  LET row == [tab |-> tab, sim |-> IF x.rec[r].inj THEN r ELSE 0, v |-> v]
      y == [x EXCEPT !.rec[r].buf = Append(@, row)]
  IN IF Len(y.rec[r].buf) >= Batch(y.rec[r].dump) THEN Deliver(y, r, FALSE) ELSE y
Flush(x, r) == IF x.rec[r].buf = <<>> THEN x ELSE Deliver(x, r, TRUE)
Close(x, r) == [Flush(x, r) EXCEPT !.rec[r].backs = <<>>]
Delete(x, r) == [Flush(x, r) EXCEPT !.rec[r].open = FALSE]
SetInject(x, r, inj) == IF x.rec[r].inj = inj THEN x ELSE [Flush(x, r) EXCEPT !.rec[r].inj = inj]
(* changing the batch size drops what is waiting *)
SetDump(x, r, n) == [x EXCEPT !.rec[r].dump = n, !.rec[r].buf = <<>>]

(* ---- querying ---- *)
Cmp(a, o, b) == CASE o = "==" -> a = b [] o = "!=" -> a # b [] o = "<" -> a < b [] o = ">" -> a > b
                  [] o = "<=" -> a <= b [] o = ">=" -> a >= b
(* a condition on a column that the table does not have restricts nothing (c < 0, Python) *)
Sat(row, c) == c.c < 0 \/ Cmp(IF c.c = 0 THEN row.sim ELSE row.v[c.c], c.o, c.v)
RowsOf(x, b, tab) == SelectSeq(x.bk[b].rows, LAMBDA r : r.tab = tab)
Select(x, b, tab, conds) == SelectSeq(RowsOf(x, b, tab), LAMBDA r : \A i \in DOMAIN conds : Sat(r, conds[i]))
TablesOf(x, b) == {x.bk[b].rows[i].tab : i \in DOMAIN x.bk[b].rows}
(* a table a backend does not have is looked up in the one it falls back on, *)
(* and from then on kept if it is one of those to keep                       *)
HasTab(x, b, tab) == tab \in TablesOf(x, b)
Behind(x, b, tab) == IF HasTab(x, b, tab) THEN b ELSE LET f == x.bk[b].fb IN IF f # 0 /\ HasTab(x, f, tab) THEN f ELSE 0
AfterQuery(x, b, tab) ==
  LET s == Behind(x, b, tab) IN
  IF s \in {0, b} \/ ~Kept(x.bk[b].keep, tab) THEN x ELSE [x EXCEPT !.bk[b].rows = @ \o RowsOf(x, s, tab)]
FieldsOf(x, b, tab) == LET r == RowsOf(x, b, tab) IN (IF r[1].sim # 0 THEN <<"SimId">> ELSE <<>>) \o x.tabs[tab]
=============================================================================
