-------------------------------- MODULE Flow --------------------------------
(* What the bundled facilities do in a whole simulation.  A prototype p has   *)
(*   k   "source" | "sink" | "kfac" | "prey" | "pred", life (-1: for ever)    *)
(* a source: c rec cap; a sink: cs rec cap max; a k-facility: ci co rec cin   *)
(* cout kin kout max; prey: c age nch bf bad; a predator: c prey full hf hcap *)
(* succ (in halves) fac age span nch bad.  Quantities are in 1/256 units.     *)
(* State x: t, ps (prototypes), ag (id -> agent), due (births per prototype). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN f[i] + SumOver(f, S \ {i})
Range(q) == {q[i] : i \in 1..Len(q)}
S0 == [t |-> 0, ps |-> <<>>, ag |-> <<>>, due |-> <<>>]
P(x, a) == x.ps[x.ag[a].p]
K(x, a) == P(x, a).k
(* an agent of prototype i as it enters *)
Agent(x, i, owned) == LET p == x.ps[i] IN
  [p |-> i, owned |-> owned, born |-> x.t, age |-> IF p.k \in {"prey", "pred"} THEN p.age ELSE 0, dead |-> FALSE, ate |-> 0,
   cin |-> IF p.k = "kfac" THEN p.cin ELSE 0, cout |-> IF p.k = "kfac" THEN p.cout ELSE 0, inv |-> 0, seen |-> 0]
(* ---- the market ---- *)
Supplies(x, a) == K(x, a) \in {"source", "kfac", "prey"}
SupC(x, a) == IF K(x, a) = "kfac" THEN P(x, a).co ELSE P(x, a).c
Supply(x, a) == CASE K(x, a) = "source" -> P(x, a).cap [] K(x, a) = "kfac" -> x.ag[a].cout [] OTHER -> 256
Asks(x, a) == CASE K(x, a) = "sink" -> Range(P(x, a).cs) [] K(x, a) = "kfac" -> {P(x, a).ci} [] K(x, a) = "pred" -> {P(x, a).c} [] OTHER -> {}
Room(x, a) == IF P(x, a).max < 0 THEN 2000000000 ELSE P(x, a).max - x.ag[a].inv
Demand(x, a) == CASE K(x, a) = "sink" -> Min2(P(x, a).cap, Room(x, a))
                  [] K(x, a) = "kfac" -> Min2(x.ag[a].cin, Room(x, a))
                  [] K(x, a) = "pred" -> (IF x.ag[a].age % P(x, a).hf = 0 THEN P(x, a).hcap ELSE 0)
                  [] OTHER -> 0
(* a predator passes over part of the prey: those with the lowest ids *)
Herd(x, r) == {s \in DOMAIN x.ag : K(x, s) = "prey" /\ SupC(x, s) = P(x, r).c}
Count(x, n) == Cardinality({a \in DOMAIN x.ag : P(x, a).name = n})
Passed(x, r) ==
  LET n == Cardinality(Herd(x, r)) p == P(x, r) np == Count(x, p.prey) nq == Count(x, p.name) IN
  IF p.fac /\ np < nq
  THEN LET u == n * (2 * nq - p.succ * np) d == 2 * nq IN
       (* an exact quotient may come out on either side in binary *)
       IF u % d = 0 THEN <<(u \div d) - 1, u \div d>> ELSE <<u \div d, u \div d>>
  ELSE LET d == (n * (2 - p.succ)) \div 2 IN <<d, d>>
Rank(x, r, s) == Cardinality({y \in Herd(x, r) : y <= s})
Fits(x, s, r) == Supplies(x, s) /\ SupC(x, s) \in Asks(x, r) /\ (K(x, r) = "pred" => K(x, s) = "prey")
May(x, s, r) == Fits(x, s, r) /\ (K(x, r) = "pred" => Rank(x, r, s) > Passed(x, r)[1])
Surely(x, s, r) == Fits(x, s, r) /\ (K(x, r) = "pred" => Rank(x, r, s) > Passed(x, r)[2])
(* T: the quantity from s to r for every pair that traded *)
Sent(T, s) == SumOver(T, {y \in DOMAIN T : y[1] = s})
Got(T, r) == SumOver(T, {y \in DOMAIN T : y[2] = r})
TradesWrong(x, T) ==
  IF \E y \in DOMAIN T : y[1] \notin DOMAIN x.ag \/ y[2] \notin DOMAIN x.ag THEN <<"trade-of-absent-agent">>
  ELSE IF \E y \in DOMAIN T : T[y] <= 0 THEN <<"quantity", T>>
  ELSE IF \E y \in DOMAIN T : ~May(x, y[1], y[2]) THEN <<"trade-not-called-for", CHOOSE y \in DOMAIN T : ~May(x, y[1], y[2])>>
  ELSE LET over == {y \in DOMAIN T : Sent(T, y[1]) > Supply(x, y[1])}
           much == {y \in DOMAIN T : Got(T, y[2]) > Demand(x, y[2])}
           idle == {y \in (DOMAIN x.ag) \X (DOMAIN x.ag) : Surely(x, y[1], y[2]) /\ Sent(T, y[1]) < Supply(x, y[1]) /\ Got(T, y[2]) < Demand(x, y[2])}
       IN IF over # {} THEN LET y == CHOOSE y \in over : TRUE IN <<"more-than-supply", y[1], Sent(T, y[1]), Supply(x, y[1])>>
          ELSE IF much # {} THEN LET y == CHOOSE y \in much : TRUE IN <<"more-than-demand", y[2], Got(T, y[2]), Demand(x, y[2])>>
          ELSE IF idle # {} THEN <<"trade-left-undone", CHOOSE y \in idle : TRUE>>
          ELSE <<>>
(* what is delivered: the supplier's recipe or, for a source without one, what was asked for *)
Stuff(x, s, r) == IF K(x, s) = "prey" THEN "product"
                  ELSE IF P(x, s).rec # "" THEN P(x, s).rec
                  ELSE IF K(x, r) = "sink" THEN P(x, r).rec ELSE ""
(* ---- a step ---- *)
Enter(x, new) == [x EXCEPT !.ag = new @@ @]          (* new: id -> agent *)
Kept(x, T, a) == IF K(x, a) \in {"sink", "kfac"} THEN Got(T, a) ELSE 0
(* material of no composition makes the nuclide amounts of its holder meaningless *)
Blank(x, T, a) == K(x, a) \in {"sink", "kfac"} /\ \E y \in DOMAIN T : y[2] = a /\ Stuff(x, y[1], a) = ""
Visible(x, T, a) == IF K(x, a) \in {"sink", "kfac"}
                    THEN SumOver(T, {y \in DOMAIN T : y[2] = a /\ Stuff(x, y[1], a) # "product"}) ELSE 0
Trade(x, T) == [x EXCEPT !.ag = [a \in DOMAIN @ |->
  [@[a] EXCEPT !.inv = @ + Kept(x, T, a), !.seen = IF @ < 0 \/ Blank(x, T, a) THEN -1 ELSE @ + Visible(x, T, a),
               !.dead = @ \/ (K(x, a) = "prey" /\ Sent(T, a) > 0),
               !.ate = @ + (IF K(x, a) = "pred" THEN Got(T, a) ELSE 0)]]]
Dies(x, a) == CASE K(x, a) = "prey" -> x.ag[a].dead
                [] K(x, a) = "pred" -> x.ag[a].age >= P(x, a).span
                [] OTHER -> FALSE
Bears(x, a) == LET p == P(x, a) g == x.ag[a] IN
  CASE p.k = "prey" -> g.age % p.bf = 0 /\ (Dies(x, a) => p.bad)
    [] p.k = "pred" -> g.ate >= p.full /\ (Dies(x, a) => p.bad)
    [] OTHER -> FALSE
(* lifetimes are the institutions' business: the offspring of prey and predators has none *)
Leaves(x) == {a \in DOMAIN x.ag : Dies(x, a) \/ (x.ag[a].owned /\ P(x, a).life >= 0 /\ x.t = x.ag[a].born + P(x, a).life - 1)}
Factor(v, k) == CASE k = "half" -> v \div 2 [] k = "same" -> v [] k = "double" -> v * 2 [] OTHER -> 0
Grow(x, a) == LET p == P(x, a) g == x.ag[a] IN
  [g EXCEPT !.age = @ + 1, !.ate = IF p.k = "pred" /\ Bears(x, a) THEN 0 ELSE @,
            !.dead = @ \/ Dies(x, a),
            !.cin = IF p.k = "kfac" THEN Factor(@, p.kin) ELSE @, !.cout = IF p.k = "kfac" THEN Factor(@, p.kout) ELSE @]
Births(x) == [i \in 1..Len(x.ps) |-> SumOver([a \in DOMAIN x.ag |-> IF x.ag[a].p = i /\ Bears(x, a) THEN x.ps[i].nch ELSE 0], DOMAIN x.ag)]
Close(x) == [x EXCEPT !.t = @ + 1, !.due = Births(x), !.ag = [a \in (DOMAIN @) \ Leaves(x) |-> Grow(x, a)]]
=============================================================================
