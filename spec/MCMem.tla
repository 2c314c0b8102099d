------------------------------- MODULE MCMem -------------------------------
(* All short histories of one recorder over a backend in memory (1) that     *)
(* falls back on a database (2) with rows of an earlier run, two tables.     *)
(* Whatever is asked for is answered with rows recorded; a table asked to be *)
(* kept is there from then on as recorded, and one not asked for is not.     *)
EXTENDS Store, Json

CONSTANTS MaxOps, Emit

VARIABLES x, log, scr, done
vars == <<x, log, scr, done>>
Tabs == {"t1", "t2"}
Pre == <<"tab t1 INT", "tab t2 INT", "back sql", "back mem 1", "sim 1 1", "reg 1 1", "rec 1 t1 1", "flush 1", "close 1", "reg 1 2">>
XInit == LET a == NewRec(NewBackOver(NewBack([X0 EXCEPT !.tabs = [t \in Tabs |-> <<"col1int">>]], "sql"), "mem", 1), 1, TRUE)
         IN Register(Close(Record(Register(a, 1, 1), 1, "t1", <<1>>), 1), 1, 2)
Init == x = XInit /\ log = <<>> /\ scr = Pre /\ done = FALSE
S(i) == ToString(i)
Do(y, line, e) == x' = y /\ log' = Append(log, e) /\ scr' = Append(scr, line) /\ UNCHANGED done
Ev(k, t) == [k |-> k, t |-> t, n |-> 0]
N == 2 + Cardinality({i \in DOMAIN log : log[i].k = "rec"})

Rec == \E t \in Tabs : Do(Record(x, 1, t, <<N>>), "rec 1 " \o t \o " " \o S(N), [Ev("rec", {t}) EXCEPT !.n = N])
All == Do(SetKeep(x, 2, [all |-> TRUE, set |-> {}]), "keep 2 all", Ev("keep", Tabs))
None == Do(SetKeep(x, 2, [all |-> FALSE, set |-> {}]), "keep 2 none", Ev("keep", {}))
Some == \E t \in Tabs : Do(SetKeep(x, 2, [all |-> FALSE, set |-> {t}]), "keep 2 " \o t, Ev("keep", {t}))
Qry == \E t \in Tabs : Do(AfterQuery(x, 2, t), "q 2 " \o t, Ev("q", {t}))
QryC == Do(AfterQuery(x, 2, "t1"), "q 2 t1 1 > 2", Ev("q", {"t1"}))
Tb == Do(x, "tabs 2", Ev("tabs", {}))
Batched == \E n \in {1, 2} : x.rec[1].dump # n /\ x.rec[1].buf = <<>> /\ Do(SetDump(x, 1, n), "dump 1 " \o S(n), Ev("dump", {}))
Next == \/ /\ ~done /\ Len(scr) < Len(Pre) + MaxOps /\ (Rec \/ All \/ None \/ Some \/ Qry \/ QryC \/ Tb \/ Batched)
        \/ /\ ~done /\ Len(scr) = Len(Pre) + MaxOps /\ done' = TRUE
           /\ Emit => PrintT("BEHAVIOUR " \o ToJson(scr \o <<"q 2 t1", "q 2 t2", "tabs 2", "tabs 1", "schema 1 t1">>))
           /\ UNCHANGED <<x, log, scr>>
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
KeepAt(i) == LET ks == SelectSeq(SubSeq(log, 1, i), LAMBDA e : e.k = "keep") IN IF ks = <<>> THEN Tabs ELSE ks[Len(ks)].t
Mem(t) == RowsOf(x, 2, t)
Only == \A t \in Tabs : t \notin KeepAt(Len(log)) => Mem(t) = <<>>
Recorded == \A t \in Tabs : \A i \in DOMAIN Mem(t) : LET n == Mem(t)[i].v[1] IN (n = 1 /\ t = "t1") \/ \E m \in DOMAIN log : log[m].k = "rec" /\ log[m].t = {t} /\ log[m].n = n
InOrder == \A t \in Tabs : \A i, j \in DOMAIN Mem(t) : i < j => Mem(t)[i].v[1] < Mem(t)[j].v[1]
Waiting(n) == \E i \in DOMAIN x.rec[1].buf : x.rec[1].buf[i].v[1] = n
(* kept ever since it was recorded: it is there, or on its way *)
There == \A m \in DOMAIN log : (log[m].k = "rec" /\ \A i \in m..Len(log) : log[m].t \subseteq KeepAt(i))
            => Waiting(log[m].n) \/ \E i \in DOMAIN x.bk[2].rows : x.bk[2].rows[i].v[1] = log[m].n
DatabaseUntouched == x.bk[1].rows = XInit.bk[1].rows
=============================================================================
