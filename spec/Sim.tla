------------------------------- MODULE Sim -------------------------------
(* A simulation as its user sees it: what the input file says it is, how it runs from there   *)
(* with agents that schedule, hold and exchange things, and what a restart must resume.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Opt(m, k, d) == IF k \in DOMAIN m THEN m[k] ELSE d
Named(q, n) == CHOOSE i \in DOMAIN q : q[i].name = n
InSeq(q, x) == \E i \in DOMAIN q : q[i] = x
SeqSet(q) == {q[i] : i \in DOMAIN q}
Bag(q) == [x \in SeqSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]

------------------------------------------------------------------------------
(* What an input file means *)
EpsDefault == "9.9999999999999995e-07"
Control(m) ==
  [dur |-> m.dur, y0 |-> m.y0, m0 |-> m.m0, handle |-> Opt(m, "handle", ""), decay |-> Opt(m, "decay", "manual"),
   dt |-> Opt(m, "dt", "2629846"), seed |-> Opt(m, "seed", "20160212"), stride |-> Opt(m, "stride", "10000"),
   eps |-> Opt(m, "eps", EpsDefault), epsr |-> Opt(m, "epsr", EpsDefault),
   geps |-> Opt(m, "eps", EpsDefault), gepsr |-> Opt(m, "epsr", EpsDefault),
   ei |-> Opt(m, "ei", FALSE), eic |-> Opt(m, "eic", FALSE)]
Packages(m) == [i \in DOMAIN m.pkgs |-> LET p == m.pkgs[i] IN
   [name |-> p.name, lo |-> Opt(p, "lo", Opt(m, "eps", EpsDefault)), hi |-> Opt(p, "hi", "1.7976931348623157e+308"), strat |-> Opt(p, "strat", "first")]]
Transport(m) == [i \in DOMAIN m.tus |-> LET p == m.tus[i] IN
   [name |-> p.name, lo |-> Opt(p, "lo", 0), hi |-> Opt(p, "hi", 2147483647), strat |-> Opt(p, "strat", "first")]]
SolverOf(m) == LET s == Opt(m, "solver", [none |-> 0]) IN [kind |-> Opt(s, "kind", "greedy"), excl |-> Opt(s, "excl", TRUE)]
\* commodities are served in order of their priority number, those without one last
Top(m) == LET P == {m.commods[i].prio : i \in DOMAIN m.commods}
              mx == IF P = {} THEN 0 ELSE CHOOSE x \in P : \A y \in P : y <= x
          IN (IF mx < 10 THEN 0 ELSE mx) + 10
Rank(m, c) ==
  IF Len(m.commods) = 0 THEN 0
  ELSE IF ~\E i \in DOMAIN m.commods : m.commods[i].name = c THEN Top(m) + 1
  ELSE LET p == m.commods[Named(m.commods, c)].prio IN IF p < 10 THEN Top(m) ELSE p
Served(m) == LET n == Len(m.ask)
                 Before(i, j) == Rank(m, m.ask[i]) < Rank(m, m.ask[j]) \/ (Rank(m, m.ask[i]) = Rank(m, m.ask[j]) /\ i < j)
                 Pos(i) == 1 + Cardinality({j \in 1..n : Before(j, i)})
             IN [k \in 1..n |-> m.ask[CHOOSE i \in 1..n : Pos(i) = k]]
ProtoOf(m, n) == m.protos[Named(m.protos, n)]
Fresh(m, n) == LET p == ProtoOf(m, n) IN
   [proto |-> n, kind |-> p.kind, spec |-> p.spec, life |-> p.life, val |-> p.val, role |-> p.role, txt |-> p.txt, num |-> p.num,
    mats |-> <<>>, prods |-> <<>>]
Static(a) == [proto |-> a.proto, kind |-> a.kind, spec |-> a.spec, life |-> a.life, val |-> a.val, role |-> a.role, txt |-> a.txt,
              num |-> a.num, mats |-> a.mats, prods |-> a.prods]
ById(q) == [i \in {q[k].id : k \in DOMAIN q} |-> q[CHOOSE k \in DOMAIN q : q[k].id = i]]
RECURSIVE PathOf(_, _)
PathOf(ag, i) == IF ag[i].par = -1 THEN <<ag[i].proto>> ELSE IF ag[i].par \notin DOMAIN ag THEN <<"?">> ELSE Append(PathOf(ag, ag[i].par), ag[i].proto)

------------------------------------------------------------------------------
(* Running *)
Y0 == [ag |-> <<>>, bq |-> <<>>, dq |-> <<>>, want |-> FALSE]
Due(y, t) == SelectSeq(y.bq, LAMBDA b : b.at = t)
SchedBuild(y, par, proto, at) == [y EXCEPT !.bq = Append(@, [at |-> at, par |-> par, proto |-> proto])]
SchedDecom(y, id, at) == [y EXCEPT !.dq = Append(SelectSeq(@, LAMBDA d : d.id # id), [id |-> id, at |-> at])]
Enter(y, a, t) ==
  LET k == CHOOSE i \in DOMAIN y.bq : y.bq[i].at = t /\ \A j \in DOMAIN y.bq : y.bq[j].at = t => i <= j
  IN [y EXCEPT !.bq = RemoveAt(@, k), !.ag = (a.id :> a) @@ @]
\* institutions retire the members whose lifetime is over
Expired(y, t) == {i \in DOMAIN y.ag : y.ag[i].life # -1 /\ t >= y.ag[i].et + y.ag[i].life - 1 /\ y.ag[i].par \in DOMAIN y.ag
                                      /\ y.ag[y.ag[i].par].kind = "Inst"}
Retire(y, t) == [y EXCEPT !.dq = SelectSeq(@, LAMBDA d : d.id \notin Expired(y, t)) \o [k \in 1..Cardinality(Expired(y, t)) |->
                   [id |-> SetToSeq(Expired(y, t))[k], at |-> t]]]
Leaving(y, t) == {y.dq[i].id : i \in {j \in DOMAIN y.dq : y.dq[j].at = t}}
Leave(y, id) ==
  [y EXCEPT !.dq = SelectSeq(@, LAMBDA d : d.id # id),
            !.ag = [i \in DOMAIN @ \ {id} |-> IF @[i].par = id THEN [@[i] EXCEPT !.par = -1] ELSE @[i]]]
Counts(y) == LET P == {y.ag[i].proto : i \in DOMAIN y.ag} IN {[p |-> x, n |-> Cardinality({i \in DOMAIN y.ag : y.ag[i].proto = x})] : x \in P}
=============================================================================
