------------------------------ MODULE MCSim ------------------------------
(* Restart by design: at the start of every step the simulation's living agents, their        *)
(* parents and everything scheduled can be rebuilt from the rows written so far, and from any *)
(* longer database of the same run restricted to that time.                                   *)
EXTENDS Sim, Json
CONSTANTS TMax, Acts, MaxId

VARIABLES t, y, db, n, left, hist, tr   \* tr: the schedule so far, as the driver reads it
vars == <<t, y, db, n, left, hist, tr>>

Protos == {"r0", "i00", "f0", "f1"}
Kind(p) == CASE p = "r0" -> "Region" [] p = "i00" -> "Inst" [] OTHER -> "Facility"
Agent(id, p, par, et) == [id |-> id, par |-> par, et |-> et, life |-> IF p = "f1" THEN 2 ELSE -1, kind |-> Kind(p), proto |-> p]
Row(tab, r) == [db EXCEPT ![tab] = Append(@, r)]
Init ==
  /\ t = 0 /\ n = 3 /\ left = Acts /\ hist = <<>> /\ tr = <<>>
  /\ y = [Y0 EXCEPT !.ag = (1 :> Agent(1, "r0", -1, 0)) @@ (2 :> Agent(2, "i00", 1, 0))]
  /\ db = [entry |-> <<[id |-> 1, proto |-> "r0", par |-> -1, et |-> 0], [id |-> 2, proto |-> "i00", par |-> 1, et |-> 0]>>, exit |-> <<>>, build |-> <<>>, decom |-> <<>>]

Pending(id) == \E i \in DOMAIN y.bq : y.bq[i].par = id
Build ==
  /\ Due(y, t) # <<>> /\ n <= MaxId
  /\ LET b == Due(y, t)[1]  a == Agent(n, b.proto, b.par, t)
     IN y' = Enter(y, a, t) /\ db' = Row("entry", [id |-> n, proto |-> b.proto, par |-> b.par, et |-> t])
  /\ n' = n + 1 /\ UNCHANGED <<t, left, hist, tr>>
Ready == Due(y, t) = <<>> /\ t < TMax
Nth(S, id) == Cardinality({x \in S : x < id})
Owners == {i \in DOMAIN y.ag : y.ag[i].kind \in {"Region", "Inst"}}
SchedB(p, par, at) ==
  /\ Ready /\ left > 0 /\ n + Len(y.bq) <= MaxId
  /\ par = -1 \/ (par \in DOMAIN y.ag /\ y.ag[par].life = -1 /\ ~\E i \in DOMAIN y.dq : y.dq[i].id = par)
  /\ y' = SchedBuild(y, par, p, at)
  /\ db' = Row("build", [par |-> par, proto |-> p, st |-> t, at |-> at])
  /\ tr' = Append(tr, <<"sb", t, p, IF par = -1 THEN -1 ELSE Nth(Owners, par), at - t>>)
  /\ left' = left - 1 /\ UNCHANGED <<t, n, hist>>
SchedD(id, at) ==
  /\ Ready /\ left > 0 /\ ~Pending(id)
  /\ y' = SchedDecom(y, id, at)
  /\ db' = Row("decom", [id |-> id, st |-> t, at |-> at])
  /\ tr' = Append(tr, <<"sd", t, "RIF", Nth(DOMAIN y.ag, id), at - t>>)
  /\ left' = left - 1 /\ UNCHANGED <<t, n, hist>>
\* the end of the step: members past their lifetime and everyone scheduled leave; then the clock moves
RECURSIVE AllLeave(_, _)
AllLeave(z, S) == IF S = {} THEN z ELSE LET i == CHOOSE j \in S : TRUE IN AllLeave(Leave(z, i), S \ {i})
Tock ==
  /\ Ready
  /\ LET E == Expired(y, t)  r == Retire(y, t)  L == Leaving(r, t)
         z == AllLeave(r, L)
     IN /\ y' = z
        /\ db' = [db EXCEPT !.decom = @ \o [k \in 1..Cardinality(E) |-> [id |-> SetToSeq(E)[k], st |-> t, at |-> t]],
                            !.exit = @ \o [k \in 1..Cardinality(L) |-> [id |-> SetToSeq(L)[k], at |-> t]]]
        /\ hist' = Append(hist, z)
  /\ t' = t + 1 /\ UNCHANGED <<n, left, tr>>
Next == Build \/ Tock \/ (\E p \in {"f0", "f1", "i00"}, par \in {-1} \cup Owners, at \in (t + 1)..TMax : SchedB(p, par, at)) \/ (\E id \in DOMAIN y.ag, at \in t..TMax : SchedD(id, at))
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* what a restart reads *)
Alive(d, T) == {d.entry[i].id : i \in {j \in DOMAIN d.entry : d.entry[j].et < T}} \ {d.exit[i].id : i \in {j \in DOMAIN d.exit : d.exit[j].at < T}}
EntryOf(d, id) == d.entry[CHOOSE j \in DOMAIN d.entry : d.entry[j].id = id]
Rebuild(d, T) ==
  LET A == Alive(d, T)
      B == SelectSeq(d.build, LAMBDA b : b.at >= T /\ b.st < T)
      D == SelectSeq(d.decom, LAMBDA b : b.at >= T /\ b.st < T /\ b.id \in A)
  IN [ag |-> [i \in A |-> [EntryOf(d, i) EXCEPT !.par = IF @ \in A THEN @ ELSE -1]],
      bq |-> [i \in DOMAIN B |-> [at |-> B[i].at, par |-> B[i].par, proto |-> B[i].proto]],
      dq |-> FoldLeft(LAMBDA q, b : Append(SelectSeq(q, LAMBDA x : x.id # b.id), [id |-> b.id, at |-> b.at]), <<>>, D)]
View(z) == [ag |-> [i \in DOMAIN z.ag |-> [id |-> i, proto |-> z.ag[i].proto, par |-> z.ag[i].par, et |-> z.ag[i].et]], bq |-> z.bq, dq |-> SeqSet(z.dq)]
Same(a, b) == View(a) = [ag |-> b.ag, bq |-> b.bq, dq |-> SeqSet(b.dq)]
\* of every step boundary reached so far, from the rows of the whole run
RestartExact == \A T \in DOMAIN hist : Same(hist[T], Rebuild(db, T))
\* nothing scheduled for the past, nobody both gone and scheduled to go, parents alive
Sane == /\ \A i \in DOMAIN y.bq : y.bq[i].at >= t
        /\ \A i \in DOMAIN y.dq : y.dq[i].at >= t /\ y.dq[i].id \in DOMAIN y.ag
        /\ \A i \in DOMAIN y.ag : y.ag[i].par = -1 \/ y.ag[i].par \in DOMAIN y.ag
        /\ \A i \in DOMAIN y.bq : y.bq[i].par = -1 \/ y.bq[i].par \in DOMAIN y.ag
\* every complete schedule of the model, for the driver
Schedules == (t = TMax /\ left = 0 /\ Due(y, t) = <<>>) => PrintT("BEHAVIOUR " \o ToJson(tr))
=============================================================================
