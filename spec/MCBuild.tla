------------------------------ MODULE MCBuild ------------------------------
(* A deployment loop: each step whatever demand is unmet is ordered, then   *)
(* some of the fleet may retire.  Checked for every choice of capacities,   *)
(* costs, demand and ties: after building supply covers demand, and no unit *)
(* that was paid for could have been left out.                              *)
EXTENDS Build, Json
CONSTANTS NStep, Caps, Costs
P == {1, 2}
VARIABLES s, t, ph, last, tr, n
vars == <<s, t, ph, last, tr, n>>
Start(c1, c2, k1, k2, a, b) ==
  [S0 EXCEPT !.pr = [p \in P |-> [cap |-> 0, cost |-> 0, co |-> [c \in {"a"} |-> [cap |-> IF p = 1 THEN c1 ELSE c2, cost |-> IF p = 1 THEN k1 ELSE k2]]]],
             !.bs = [q \in {1, 2} |-> {q}], !.bm = {1, 2}, !.gs = [g \in {1} |-> {}], !.sd = {1},
             !.fn = [q \in {1} |-> [k |-> "lin", a |-> a, b |-> b, c |-> 0]], !.de = [c \in {"a"} |-> 1]]
Init == \E c1, c2 \in Caps, k1, k2 \in Costs, a \in {0, 8, 20}, b \in {0, 40} :
          /\ s = Start(c1, c2, k1, k2, a, b) /\ t = 0 /\ ph = "grow" /\ n = 10
          /\ last = [o |-> NoFn, d |-> 0] /\ tr = <<<<c1, c2, k1, k2, a, b>>>>
Demand == Val(s, 1, 8 * t)
Orders(d) == LET B == [p \in P |-> IF d <= 0 THEN 0 ELSE CeilDiv(d, CapOf(s, p, "a"))] IN
             {o \in {[p \in {q \in P : (IF q = 1 THEN x ELSE y) > 0} |-> IF p = 1 THEN x ELSE y] : x \in 0..B[1], y \in 0..B[2]} : Right(s, "a", o, d)}
RECURSIVE Copies(_, _, _)
Copies(x, from, ids) == IF ids = {} THEN x ELSE LET i == CHOOSE i \in ids : TRUE IN
   Copies([x EXCEPT !.pr = Put(x.pr, i, x.pr[from]), !.gs[1] = @ \cup {i}], from, ids \ {i})
Cnt(o, p) == IF p \in DOMAIN o THEN o[p] ELSE 0
Grow == /\ ph = "grow"
        /\ LET d == Demand - Supply(s, "a") IN
           \E o \in Orders(d) :
             /\ s' = Copies(Copies(s, 1, {i \in n..(n + Cnt(o, 1) - 1) : TRUE}), 2, {i \in (n + Cnt(o, 1))..(n + Cnt(o, 1) + Cnt(o, 2) - 1) : TRUE})
             /\ n' = n + Cnt(o, 1) + Cnt(o, 2)
             /\ last' = [o |-> o, d |-> d]
        /\ ph' = "retire" /\ tr' = Append(tr, <<"grow">>) /\ UNCHANGED t
Retire == /\ ph = "retire" /\ t + 1 < NStep
          /\ \E k \in 0..1 :
               /\ s' = IF k = 0 \/ s.gs[1] = {} THEN s ELSE [s EXCEPT !.gs[1] = @ \ {MinS(@)}]
               /\ tr' = Append(tr, <<"retire", k>>)
          /\ ph' = "grow" /\ t' = t + 1 /\ UNCHANGED <<last, n>>
Next == Grow \/ Retire
Spec == Init /\ [][Next]_vars
Covered == ph = "retire" => Supply(s, "a") >= Demand
NoSpare == \A p \in DOMAIN last.o : CostOf(s, p, "a") > 0 =>
              ~Meets(s, "a", [last.o EXCEPT ![p] = @ - 1], last.d)
Feasible == ph = "grow" => Orders(Demand - Supply(s, "a")) # {}
Schedules == (ph = "retire" /\ t + 1 = NStep) => PrintT("BEHAVIOUR " \o ToJson(tr))
=============================================================================
