------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* The dynamic resource exchange: requests and bids are collected,         *)
(* preferences adjusted, the exchange is translated to a flow graph, the   *)
(* graph is solved, and the solution is executed and recorded.             *)
(*                                                                         *)
(* Quantities, preferences and unit capacities are integers in thousandths *)
(* (S = 1000); Inf stands for an unlimited capacity.  Rounding is absorbed *)
(* by Tol.                                                                 *)
(*                                                                         *)
(* Part 1 defines, from what the traders declared, the graph the exchange  *)
(* must be (the "declared" graph).  Part 2 defines what a feasible         *)
(* solution of a graph is, and the greedy solver as a transition system    *)
(* over partial solutions.  Part 3 is the order of the calls made to       *)
(* traders and the rows recorded.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 1000
Tol == 20
Inf == 1000000000

MinOf(T) == CHOOSE m \in T : \A y \in T : m <= y
MaxOf(T) == CHOOSE m \in T : \A y \in T : m >= y
Min2(a, b) == IF a < b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
Near(a, b) == Abs(a - b) <= Tol

RECURSIVE SumSet(_, _)
SumSet(T, f) == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN f[e] + SumSet(T \ {e}, f)
RECURSIVE SumSeqF(_)
SumSeqF(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeqF(Tail(s))
Rng(s) == {s[i] : i \in DOMAIN s}
Count(s, e) == Cardinality({i \in DOMAIN s : s[i] = e})

(***************************************************************************)
(* Part 1: the declared exchange.                                          *)
(*   D.ag  agents [par, f]         D.rp request portfolios                 *)
(*   D.bp  bid portfolios          D.wgt commodity weights                 *)
(***************************************************************************)
RPs(D, t, ty) == {i \in DOMAIN D.rp : D.rp[i].t = t /\ D.rp[i].ty = ty}
BPs(D, t, ty) == {i \in DOMAIN D.bp : D.bp[i].t = t /\ D.bp[i].ty = ty}
Reqs(D, t, ty) == UNION {{<<i, j>> : j \in DOMAIN D.rp[i].rq} : i \in RPs(D, t, ty)}
ReqRec(D, r) == D.rp[r[1]].rq[r[2]]
ReqIds(D, t, ty) == {ReqRec(D, r).id : r \in Reqs(D, t, ty)}
BidsOf(D, t, ty) == {b \in UNION {{<<i, j>> : j \in DOMAIN D.bp[i].bd} : i \in BPs(D, t, ty)} :
                       D.bp[b[1]].bd[b[2]].rq \in ReqIds(D, t, ty)}
BidRec(D, b) == D.bp[b[1]].bd[b[2]]
ReqOf(D, t, ty, id) == CHOOSE r \in Reqs(D, t, ty) : ReqRec(D, r).id = id
BidOf(D, t, ty, id) == CHOOSE b \in BidsOf(D, t, ty) : BidRec(D, b).id = id

Traders(D) == {a \in DOMAIN D.ag : D.ag[a].f}
Requesters(D, t, ty) == {D.rp[i].a : i \in RPs(D, t, ty)}
RECURSIVE Ancestors(_, _)
Ancestors(D, a) == IF D.ag[a].par = 0 THEN <<>> ELSE <<D.ag[a].par>> \o Ancestors(D, D.ag[a].par)

(* the quantity a portfolio asks for: a mutual group counts once, by its average *)
MutAvg(p, m) == SumSeqF([j \in 1..Len(m) |-> p.rq[CHOOSE k \in DOMAIN p.rq : p.rq[k].id = m[j]].q]) \div Len(m)
MutSum(p, m) == SumSeqF([j \in 1..Len(m) |-> p.rq[CHOOSE k \in DOMAIN p.rq : p.rq[k].id = m[j]].q])
PortQty(p) == SumSeqF([j \in 1..Len(p.rq) |-> p.rq[j].q])
              + SumSeqF([j \in 1..Len(p.mut) |-> MutAvg(p, p.mut[j]) - MutSum(p, p.mut[j])])
ReqCoef(p, r) ==
  LET G == {j \in DOMAIN p.mut : r.id \in Rng(p.mut[j])} IN
  IF G = {} THEN S ELSE (MutAvg(p, p.mut[CHOOSE j \in G : TRUE]) * S) \div r.q

CnCoef(c, b) == IF c.u THEN b.u ELSE c.k
BidPref0(D, t, ty, b) == IF b.np THEN ReqRec(D, ReqOf(D, t, ty, b.rq)).p ELSE b.p

(* exclusive trades are all or nothing: the only quantity an arc may carry *)
ExclVal(u, v) == IF u.ex /\ v.ex THEN (IF u.q = v.q THEN u.q ELSE 0)
                 ELSE IF u.ex THEN (IF v.q >= u.q THEN u.q ELSE 0)
                 ELSE IF v.ex THEN (IF v.q <= u.q THEN v.q ELSE 0)
                 ELSE 0

(***************************************************************************)
(* Part 2: graphs, solutions, the greedy solver.                           *)
(*   g.rg: <<[q, caps, n: <<[id,q,ex,c,a]>>]>>   g.sg: <<[caps, n, eg]>>    *)
(*   g.arcs: <<[r, b, p, ex, ev, uu, uv]>>                                  *)
(***************************************************************************)
RGof(g, id) == CHOOSE i \in DOMAIN g.rg : \E j \in DOMAIN g.rg[i].n : g.rg[i].n[j].id = id
SGof(g, id) == CHOOSE i \in DOMAIN g.sg : \E j \in DOMAIN g.sg[i].n : g.sg[i].n[j].id = id
RNode(g, id) == LET i == RGof(g, id) IN g.rg[i].n[CHOOSE j \in DOMAIN g.rg[i].n : g.rg[i].n[j].id = id]
SNode(g, id) == LET i == SGof(g, id) IN g.sg[i].n[CHOOSE j \in DOMAIN g.sg[i].n : g.sg[i].n[j].id = id]

(* a solution is a function from arc indices to quantities *)
NoFlow(g) == [a \in DOMAIN g.arcs |-> 0]
ArcsOfRG(g, i) == {a \in DOMAIN g.arcs : RGof(g, g.arcs[a].r) = i}
ArcsOfSG(g, i) == {a \in DOMAIN g.arcs : SGof(g, g.arcs[a].b) = i}
ArcsOfR(g, id) == {a \in DOMAIN g.arcs : g.arcs[a].r = id}
ArcsOfB(g, id) == {a \in DOMAIN g.arcs : g.arcs[a].b = id}
Used(f, A, uc(_), k) == SumSet(A, [a \in A |-> (f[a] * uc(a)[k]) \div S])
SupplyLeft(g, f, i, k) == IF g.sg[i].caps[k] = Inf THEN Inf
                          ELSE g.sg[i].caps[k] - Used(f, ArcsOfSG(g, i), LAMBDA a : g.arcs[a].uv, k)
DemandLeft(g, f, i, k) == IF g.rg[i].caps[k] = Inf THEN Inf
                          ELSE g.rg[i].caps[k] - Used(f, ArcsOfRG(g, i), LAMBDA a : g.arcs[a].uu, k)

SupplyFeasible(g, f) ==
  /\ \A i \in DOMAIN g.sg : \A k \in DOMAIN g.sg[i].caps : SupplyLeft(g, f, i, k) >= -Tol
  /\ \A i \in DOMAIN g.sg : \A j \in DOMAIN g.sg[i].n :
       LET b == g.sg[i].n[j] IN SumSet(ArcsOfB(g, b.id), f) <= b.q + Tol
  /\ \A a \in DOMAIN g.arcs : f[a] >= 0 /\ f[a] <= RNode(g, g.arcs[a].r).q + Tol
DemandFeasible(g, f) ==
  /\ \A i \in DOMAIN g.rg : SumSet(ArcsOfRG(g, i), f) <= g.rg[i].q + Tol
  /\ \A i \in DOMAIN g.rg : \A j \in DOMAIN g.rg[i].n :
       LET r == g.rg[i].n[j] IN SumSet(ArcsOfR(g, r.id), f) <= r.q + Tol
ExclFeasible(g, f) ==
  /\ \A a \in DOMAIN g.arcs : g.arcs[a].ex /\ f[a] > Tol => Near(f[a], g.arcs[a].ev)
  /\ \A i \in DOMAIN g.rg : \A j \in DOMAIN g.rg[i].n :
       LET r == g.rg[i].n[j] IN r.ex => Cardinality({a \in ArcsOfR(g, r.id) : f[a] > Tol}) <= 1
SharedExcl(g) == \E i \in DOMAIN g.sg : \E j \in DOMAIN g.sg[i].eg : Len(g.sg[i].eg[j]) > 1
OfferFeasible(g, f) ==
  \A i \in DOMAIN g.sg : \A j \in DOMAIN g.sg[i].eg :
     Cardinality({a \in DOMAIN g.arcs : g.arcs[a].b \in Rng(g.sg[i].eg[j]) /\ f[a] > Tol}) <= 1

(* remaining capacity of an arc, as the greedy solver sees it *)
SupplyCap(g, f, a) ==
  LET i == SGof(g, g.arcs[a].b)
      q == SNode(g, g.arcs[a].b).q - SumSet(ArcsOfB(g, g.arcs[a].b), f)
      C == {IF SupplyLeft(g, f, i, k) = Inf THEN Inf ELSE (SupplyLeft(g, f, i, k) * S) \div g.arcs[a].uv[k]
              : k \in DOMAIN g.sg[i].caps}
  IN IF C = {} THEN q ELSE Min2(q, MinOf(C))
DemandCap(g, f, a) ==
  LET i == RGof(g, g.arcs[a].r)
      q == RNode(g, g.arcs[a].r).q - SumSet(ArcsOfR(g, g.arcs[a].r), f)
      C == {IF DemandLeft(g, f, i, k) = Inf THEN Inf ELSE (DemandLeft(g, f, i, k) * S) \div g.arcs[a].uu[k]
              : k \in DOMAIN g.rg[i].caps}
  IN IF C = {} THEN q ELSE Min2(q, MaxOf(C))
Avail(g, f, a) ==
  LET i == RGof(g, g.arcs[a].r)
      t == Min2(g.rg[i].q - SumSet(ArcsOfRG(g, i), f), Min2(SupplyCap(g, f, a), DemandCap(g, f, a)))
  IN IF g.arcs[a].ex THEN (IF t >= g.arcs[a].ev - Tol THEN g.arcs[a].ev ELSE 0) ELSE t

(* order of service.  wgt(c): weight of commodity c in thousandths *)
PrefSum(g, id) == SumSet(ArcsOfR(g, id), [a \in ArcsOfR(g, id) |-> g.arcs[a].p])
NPref(g, id) == Cardinality(ArcsOfR(g, id))
(* weight * (1 + avg / (1 + avg)), avg = PrefSum / (NPref * S) *)
NodeWgt(g, n, w) ==
  LET ss == PrefSum(g, n.id) \div 10
      k == NPref(g, n.id) * 100
  IN IF k = 0 THEN w ELSE (w * (k + 2 * ss)) \div (k + ss)
Wgt(W, c) == IF W = <<>> THEN S
             ELSE IF \E i \in DOMAIN W : W[i].c = c THEN W[CHOOSE i \in DOMAIN W : W[i].c = c].w ELSE 0
GroupWgt(g, i, W) == LET n == g.rg[i].n IN
  IF n = <<>> THEN 0 ELSE SumSeqF([j \in 1..Len(n) |-> NodeWgt(g, n[j], Wgt(W, n[j].c))]) \div Len(n)

(* arc a is served strictly before arc b *)
Before(g, W, a, b) ==
  LET ra == g.arcs[a].r  rb == g.arcs[b].r
      ga == RGof(g, ra)  gb == RGof(g, rb)
  IN IF ga # gb THEN GroupWgt(g, ga, W) > GroupWgt(g, gb, W) + 5
     ELSE IF ra # rb THEN PrefSum(g, ra) * NPref(g, rb) > PrefSum(g, rb) * NPref(g, ra)
     ELSE g.arcs[a].p > g.arcs[b].p

(* one step of the greedy solver: arc a takes everything it can, provided  *)
(* nothing that is served before it could still take anything              *)
GreedyMay(g, W, f, a) == /\ Avail(g, f, a) > Tol
                         /\ f[a] = 0
                         /\ \A b \in DOMAIN g.arcs : Before(g, W, b, a) /\ f[b] = 0 => Avail(g, f, b) <= Tol
GreedyStep(g, f, a) == [f EXCEPT ![a] = Avail(g, f, a)]
GreedyDone(g, f) == \A a \in DOMAIN g.arcs : f[a] > 0 \/ Avail(g, f, a) <= Tol

(* what a solution costs: flow / preference, unmet demand at the pseudo     *)
(* cost.  In units of 1/200 per unit of flow; preferences divide 200.       *)
Unit == 200
ArcCost(g, a, ex) == LET c == (Unit * S) \div g.arcs[a].p IN IF ex /\ g.arcs[a].ex THEN (c * g.arcs[a].ev) \div S ELSE c
Pseudo(g, ex) ==
  (11 * MaxOf({0} \cup {IF g.arcs[a].ex /\ g.arcs[a].ev > 0 /\ g.arcs[a].ev < S
                        THEN (ArcCost(g, a, ex) * S) \div g.arcs[a].ev
                        ELSE ArcCost(g, a, ex) : a \in DOMAIN g.arcs})) \div 10
Unmet(g, f, i) == LET U == {0} \cup {DemandLeft(g, f, i, k) : k \in DOMAIN g.rg[i].caps} IN MaxOf(U)
SolCost(g, f, ex) ==
  SumSet(DOMAIN g.arcs, [a \in DOMAIN g.arcs |-> f[a] * ((Unit * S) \div g.arcs[a].p)])
  + SumSet(DOMAIN g.rg, [i \in DOMAIN g.rg |-> IF ArcsOfRG(g, i) = {} THEN 0 ELSE Unmet(g, f, i) * Pseudo(g, ex)])
(* Other sets of trades near a solution: every pair may move by half a unit *)
(* (by a quarter or a whole one too if there are few pairs) or stop         *)
(* altogether, and all-or-nothing pairs may switch, in any combination.     *)
(* Costs are convex in the quantities, so a better solution far away shows  *)
(* up as a better one nearby.                                               *)
Moves(g, f, a, ex) ==
  IF ex /\ g.arcs[a].ex THEN {0, g.arcs[a].ev}
  ELSE LET D == IF Len(g.arcs) <= 3 THEN {-1000, -500, -250, 0, 250, 500, 1000} ELSE {-500, 0, 500}
       IN {q \in {f[a] + d : d \in D} \cup (IF Len(g.arcs) <= 4 THEN {0} ELSE {}) : q >= 0}
RECURSIVE Nearby(_, _, _, _)
Nearby(g, f, ex, n) == IF n = 0 THEN {<<>>}
                       ELSE {Append(v, q) : v \in Nearby(g, f, ex, n - 1), q \in Moves(g, f, n, ex)}
Allowed(g, v, ex) ==
  LET sgi == [a \in DOMAIN g.arcs |-> SGof(g, g.arcs[a].b)] IN
  /\ \A a \in DOMAIN g.arcs : v[a] <= Min2(RNode(g, g.arcs[a].r).q, SNode(g, g.arcs[a].b).q)
  /\ \A i \in DOMAIN g.sg : \A k \in DOMAIN g.sg[i].caps :
        LET A == {a \in DOMAIN g.arcs : sgi[a] = i /\ v[a] > 0} IN
        g.sg[i].caps[k] = Inf \/ SumSet(A, [a \in A |-> (v[a] * g.arcs[a].uv[k]) \div S]) <= g.sg[i].caps[k]
  /\ ex => ExclFeasible(g, v) /\ OfferFeasible(g, v)
Best(g, f, ex) ==
  LET c == SolCost(g, f, ex) - SolCost(g, f, ex) \div 200 - 2 * Unit * Tol
      A == {v \in Nearby(g, f, ex, Len(g.arcs)) : Allowed(g, v, ex)}
      rgi == [a \in DOMAIN g.arcs |-> RGof(g, g.arcs[a].r)]
      uc == [a \in DOMAIN g.arcs |-> (Unit * S) \div g.arcs[a].p]
      ps == Pseudo(g, ex)
      RG == Rng(rgi)
      Cost(v) == SumSet(DOMAIN v, [a \in DOMAIN v |-> v[a] * uc[a]])
                 + SumSet(RG, [i \in RG |-> Unmet(g, v, i) * ps])
  IN \A v \in A : Cost(v) >= c
=============================================================================
