------------------------------ MODULE MCStore ------------------------------
(* All short histories of two recorders over three listeners.  Every        *)
(* listener is handed exactly the rows recorded while it was registered     *)
(* and not dropped, once, in order; what is waiting never reaches a full    *)
(* batch, and nothing is waiting after a flush or a close.                  *)
EXTENDS Store, Json

CONSTANTS MaxOps, Emit

VARIABLES x, got, log, scr, done
vars == <<x, got, log, scr, done>>
(* got[b]: everything delivered to b; log: the operations so far            *)
Pre == <<"tab t1 int", "back cap", "back cap", "sim 2 1", "sim 1 0", "reg 1 1", "reg 1 2", "reg 2 2">>
XInit == Register(Register(Register(NewRec(NewRec(NewBack(NewBack([X0 EXCEPT !.tabs = ("t1" :> <<"col1int">>)], "cap"), "cap"), 2, TRUE), 1, FALSE), 1, 1), 1, 2), 2, 2)
Rows(q) == FlattenSeq([i \in DOMAIN q |-> q[i].rows])
Take(y) == [y EXCEPT !.exp = [b \in DOMAIN y.exp |-> <<>>]]
Init == x = XInit /\ got = [b \in 1..2 |-> <<>>] /\ log = <<>> /\ scr = Pre /\ done = FALSE

Do(y, line, l) == /\ got' = [b \in 1..2 |-> got[b] \o Rows(y.exp[b])] /\ x' = Take(y) /\ log' = l
                  /\ scr' = Append(scr, line) /\ UNCHANGED done
N == Cardinality({i \in DOMAIN log : log[i].k = "rec"})
In(q, e) == \E i \in DOMAIN q : q[i] = e
Ev(kind, r) == [k |-> kind, r |-> r, n |-> 0, b |-> {}]
S(i) == ToString(i)

Rec == \E r \in 1..2 : x.rec[r].open /\ Do(Record(x, r, "t1", <<N>>), "rec " \o S(r) \o " t1 " \o S(N), Append(log, [Ev("rec", r) EXCEPT !.n = N]))
Fl == \E r \in 1..2 : x.rec[r].open /\ Do(Flush(x, r), "flush " \o S(r), Append(log, Ev("flush", r)))
Cl == \E r \in 1..2 : x.rec[r].open /\ Do(Close(x, r), "close " \o S(r), Append(log, Ev("close", r)))
Dl == \E r \in 1..2 : x.rec[r].open /\ Do(Delete(x, r), "del " \o S(r), Append(log, Ev("del", r)))
Rg == \E r \in 1..2, b \in 1..2 : x.rec[r].open /\ ~In(x.rec[r].backs, b) /\ Do(Register(x, r, b), "reg " \o S(r) \o " " \o S(b), Append(log, [Ev("reg", r) EXCEPT !.b = {b}]))
Ij == \E r \in 1..2 : x.rec[r].open /\ LET v == ~x.rec[r].inj IN Do(SetInject(x, r, v), "inject " \o S(r) \o (IF v THEN " 1" ELSE " 0"), Append(log, Ev("inject", r)))
Dm == \E n \in {0, 3} : x.rec[1].open /\ Do(SetDump(x, 1, n), "dump 1 " \o S(n), Append(log, Ev("dump", 1)))
Next == \/ /\ ~done /\ Len(scr) < Len(Pre) + MaxOps /\ (Rec \/ Fl \/ Cl \/ Dl \/ Rg \/ Ij \/ Dm)
        \/ /\ ~done /\ Len(scr) = Len(Pre) + MaxOps /\ done' = TRUE
           /\ Emit => PrintT("BEHAVIOUR " \o ToJson(scr))
           /\ UNCHANGED <<x, got, log, scr>>
Spec == Init /\ [][Next]_vars

(* ---- properties, stated over the history rather than the buffers ---- *)
Start == (1 :> {1, 2}) @@ (2 :> {2})
RegAt(r, i) == FoldLeft(LAMBDA s, e : IF e.r # r THEN s ELSE IF e.k = "reg" THEN s \cup e.b ELSE IF e.k = "close" THEN {} ELSE s, Start[r], SubSeq(log, 1, i))
Pend(r) == [j \in DOMAIN x.rec[r].buf |-> x.rec[r].buf[j].v[1]]
Dropped(n, i, r) == \E j \in (i + 1)..Len(log) : log[j].k = "dump" /\ log[j].r = r
(* a row delivered to anyone is delivered once to each, in recording order  *)
Once == \A b \in 1..2 : \A i, j \in DOMAIN got[b] : i < j => got[b][i].v[1] # got[b][j].v[1]
PerRecorderOrder == \A b \in 1..2 : \A i, j \in DOMAIN got[b] : (i < j) =>
   LET oi == CHOOSE m \in DOMAIN log : log[m].k = "rec" /\ log[m].n = got[b][i].v[1]
       oj == CHOOSE m \in DOMAIN log : log[m].k = "rec" /\ log[m].n = got[b][j].v[1]
   IN log[oi].r = log[oj].r => oi < oj
(* registered throughout, never dropped: a row is with the listener or waiting *)
NotLost == \A m \in DOMAIN log : log[m].k = "rec" => LET r == log[m].r IN \A b \in RegAt(r, m) :
   \/ \E i \in DOMAIN got[b] : got[b][i].v[1] = log[m].n
   \/ In(Pend(r), log[m].n)
   \/ Dropped(log[m].n, m, r)
NothingInvented == \A b \in 1..2 : \A i \in DOMAIN got[b] : \E m \in DOMAIN log : log[m].k = "rec" /\ log[m].n = got[b][i].v[1]
BatchBound == \A r \in 1..2 : Len(x.rec[r].buf) < Batch(x.rec[r].dump)
FlushedIsEmpty == log # <<>> /\ log[Len(log)].k \in {"flush", "close", "del", "inject", "dump"} => x.rec[log[Len(log)].r].buf = <<>>
=============================================================================
