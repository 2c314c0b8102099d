----------------------------- MODULE StoreTrace -----------------------------
(* Recorded executions of the real recorder and database backends. *)
EXTENDS Store, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>

K0 == [x |-> X0, busy |-> FALSE, done |-> FALSE]
Good(y) == [k |-> y, err |-> <<>>]
Bad(y, why) == [k |-> y, err |-> why]

RowEq(a, r) == a.tab = r.tab /\ a.sim = r.sim /\ a.v = r.v /\ a.ok
RowsEq(as, rs) == Len(as) = Len(rs) /\ \A i \in DOMAIN as : RowEq(as[i], rs[i])

Start(s, y) == IF s.busy THEN Bad(s, <<"overlapping-operations">>) ELSE Good([s EXCEPT !.x = y, !.busy = TRUE])
Idle(s, y) == IF s.busy THEN Bad(s, <<"overlapping-operations">>) ELSE Good([s EXCEPT !.x = y])
Note(s, e) ==
  LET q == s.x.exp[e.b] IN
  IF q = <<>> THEN (IF e.op = "bflush" THEN Good(s) ELSE Bad(s, <<"unexpected-delivery", e>>))
  ELSE IF Head(q).op = e.op /\ (e.op = "bflush" \/ RowsEq(e.rows, Head(q).rows)) THEN Good([s EXCEPT !.x.exp[e.b] = Tail(@)])
  ELSE Bad(s, <<"delivery-differs", e, "expected", Head(q)>>)

OpQ(s, e) ==
  LET x == s.x  b == Behind(x, e.b, e.tab) IN
  IF b = 0
  THEN IF e.res \in (IF x.bk[e.b].kind = "mem" THEN {"none"} ELSE {"value", "io"}) THEN Good(s) ELSE Bad(s, <<"query-of-missing-table", e>>)
  ELSE LET want == Select(x, b, e.tab, e.conds)
           got == [i \in 1..Len(e.rows) |-> [tab |-> e.tab, sim |-> e.rows[i].sim, v |-> e.rows[i].v]]
       IN IF e.res # "ok" THEN Bad(s, <<"query-failed", e.res, e>>)
          ELSE IF e.fields # FieldsOf(x, b, e.tab) \/ ~e.types THEN Bad(s, <<"query-fields", e.fields, FieldsOf(x, b, e.tab)>>)
          ELSE IF got # want THEN Bad(s, <<"query-rows", e.tab, x.bk[e.b].kind, x.tabs[e.tab], e.conds, "got", got, "want", want>>)
          ELSE Good([s EXCEPT !.x = AfterQuery(x, e.b, e.tab)])
Set(q) == {q[i] : i \in DOMAIN q}
OpInfo(s, e) ==
  LET x == s.x  T == TablesOf(x, e.b) IN
  IF Set(e.tabs) # T THEN Bad(s, <<"tables", e.tabs, T>>)
  ELSE IF e.tab \in T /\ (e.schema # FieldsOf(x, e.b, e.tab) \/ Set(e.cols) # Set(FieldsOf(x, e.b, e.tab)) \/ Len(e.cols) # Len(e.schema))
  THEN Bad(s, <<"columns", e, FieldsOf(x, e.b, e.tab)>>)
  ELSE Good(s)

OpKeep(s, e) ==
  LET keep == [all |-> e.all, set |-> Set(e.set)] IN
  IF e.gall # e.all \/ Set(e.gset) # keep.set THEN Bad(s, <<"tables-to-keep", e>>) ELSE Idle(s, SetKeep(s.x, e.b, keep))
OpSchema(s, e) ==
  LET x == s.x  w == IF HasTab(x, e.b, e.tab) THEN FieldsOf(x, e.b, e.tab) ELSE <<>> IN
  IF e.cols # w THEN Bad(s, <<"columns", e, w>>) ELSE Good(s)

Apply(s, e) ==
  LET x == s.x IN
  CASE e.op = "sim" -> IF e.got # e.dump \/ e.inj # e.ginj THEN Bad(s, <<"recorder-settings", e>>) ELSE Idle(s, NewRec(x, e.dump, e.inj))
    [] e.op = "back" -> Idle(s, NewBackOver(x, e.kind, IF "fb" \in DOMAIN e THEN e.fb ELSE 0))
    [] e.op = "keep" -> OpKeep(s, e)
    [] e.op = "tabs" -> IF Set(e.tabs) = TablesOf(x, e.b) THEN Good(s) ELSE Bad(s, <<"tables", e, TablesOf(x, e.b)>>)
    [] e.op = "schema" -> OpSchema(s, e)
    [] e.op = "reg" -> Idle(s, Register(x, e.r, e.b))
    [] e.op = "tab" -> Idle(s, [x EXCEPT !.tabs = (e.tab :> e.cols) @@ @])
    [] e.op = "rec" -> Start(s, Record(x, e.r, e.tab, e.v))
    [] e.op = "flush" -> Start(s, Flush(x, e.r))
    [] e.op = "close" -> Start(s, Close(x, e.r))
    [] e.op = "del" -> Start(s, Delete(x, e.r))
    [] e.op = "inject" -> Start(s, SetInject(x, e.r, e.inj))
    [] e.op = "dump" -> IF e.got # e.dump THEN Bad(s, <<"recorder-settings", e>>) ELSE Idle(s, SetDump(x, e.r, e.dump))
    [] e.op \in {"notify", "bflush"} -> Note(s, e)
    [] e.op = "done" -> IF e.res # "ok" THEN Bad(s, <<"operation-failed", e>>)
                        ELSE IF \E b \in DOMAIN x.exp : x.exp[b] # <<>> THEN Bad(s, <<"not-delivered", x.exp>>)
                        ELSE Good([s EXCEPT !.busy = FALSE])
    [] e.op = "reopen" -> Good(s)
    [] e.op = "q" -> OpQ(s, e)
    [] e.op = "info" -> OpInfo(s, e)
    [] e.op = "end" -> Good([s EXCEPT !.done = TRUE])
    [] OTHER -> Bad(s, <<"unexplained", e>>)

TraceInit == /\ h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
TraceNext ==
  /\ err = <<>>
  /\ l < Len(Hist[h].ev)
  /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN
       /\ k' = r.k
       /\ err' = IF r.err = <<>> /\ l + 1 = Len(Hist[h].ev) /\ ~r.k.done THEN <<"history-incomplete">> ELSE r.err
  /\ l' = l + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
