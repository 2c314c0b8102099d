----------------------------- MODULE MCExchange -----------------------------
(* The greedy solver over every small exchange: two requests (in one         *)
(* portfolio or two), three bids in two bid portfolios.  Every partial       *)
(* solution is feasible, every run ends in a maximal solution, and higher    *)
(* preferences are never passed over.                                        *)
EXTENDS Exchange, Json

CONSTANTS Qs, Ps, Exs, Caps, Emit

VARIABLES p, f, ph
vars == <<p, f, ph>>

Param == [rq : Qs \X Qs, rx : Exs \X Exs, same : BOOLEAN, b3 : {1, 2},
          bq : Qs \X Qs \X Qs, bx : Exs, bp : Ps \X Ps \X Ps, cap : Caps \X Caps]

(* bids 11 (for 1, portfolio 1), 12 (for 2, portfolio 2), 13 (for b3, portfolio 1) *)
RN(x, i) == [id |-> i, q |-> x.rq[i] * S, ex |-> x.rx[i], c |-> "c0", a |-> 1]
BN(x, i) == [id |-> 10 + i, q |-> x.bq[i] * S, ex |-> (i = 1 /\ x.bx), c |-> "c0", a |-> 2]
ReqFor(x, i) == IF i = 3 THEN x.b3 ELSE i
Arc(x, i) == [r |-> ReqFor(x, i), b |-> 10 + i, p |-> x.bp[i] * S,
              ex |-> RN(x, ReqFor(x, i)).ex \/ BN(x, i).ex,
              ev |-> ExclVal(RN(x, ReqFor(x, i)), BN(x, i)), uu |-> <<S>>, uv |-> <<S>>]
Gr(x) ==
  [rg |-> IF x.same THEN << [q |-> (x.rq[1] + x.rq[2]) * S, caps |-> <<(x.rq[1] + x.rq[2]) * S>>, n |-> <<RN(x, 1), RN(x, 2)>>] >>
          ELSE << [q |-> x.rq[1] * S, caps |-> <<x.rq[1] * S>>, n |-> <<RN(x, 1)>>],
                  [q |-> x.rq[2] * S, caps |-> <<x.rq[2] * S>>, n |-> <<RN(x, 2)>>] >>,
   sg |-> << [caps |-> <<x.cap[1] * S>>, n |-> <<BN(x, 1), BN(x, 3)>>, eg |-> <<>>],
             [caps |-> <<x.cap[2] * S>>, n |-> <<BN(x, 2)>>, eg |-> <<>>] >>,
   arcs |-> <<Arc(x, 1), Arc(x, 2), Arc(x, 3)>>]

B2I(b) == IF b THEN 1 ELSE 0
Init == /\ p \in Param
        /\ f = <<0, 0, 0>>
        /\ ph = "run"
Step == /\ ph = "run"
        /\ \E a \in 1..3 : GreedyMay(Gr(p), <<>>, f, a) /\ f' = GreedyStep(Gr(p), f, a)
        /\ UNCHANGED <<p, ph>>
Stop == /\ ph = "run"
        /\ \A a \in 1..3 : ~GreedyMay(Gr(p), <<>>, f, a)
        /\ ph' = "end"
        /\ Emit => PrintT("BEHAVIOUR " \o ToJson([rq |-> p.rq, rx |-> <<B2I(p.rx[1]), B2I(p.rx[2])>>, same |-> p.same,
                            b3 |-> p.b3, bq |-> p.bq, bx |-> B2I(p.bx), bp |-> p.bp, cap |-> p.cap]))
        /\ UNCHANGED <<p, f>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Feasible == SupplyFeasible(Gr(p), f) /\ DemandFeasible(Gr(p), f) /\ ExclFeasible(Gr(p), f)
Maximal == ph = "end" => GreedyDone(Gr(p), f)
(* a bid on the same request with a higher preference is only passed over if it *)
(* could not be served when its turn came                                       *)
PrefRespected ==
  ph = "end" => \A a, b \in 1..3 :
     LET g == Gr(p) IN
     (g.arcs[a].r = g.arcs[b].r /\ g.arcs[a].p > g.arcs[b].p /\ f[b] > 0 /\ ~g.arcs[a].ex /\ ~g.arcs[b].ex)
       => Avail(g, [f EXCEPT ![b] = 0], a) <= Tol \/ f[a] > 0
Terminates == <>(ph = "end")
=============================================================================
