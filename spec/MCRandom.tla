----------------------------- MODULE MCRandom -----------------------------
(* Model of the service: one stream of numbers per seed and a position in it; *)
(* each kind of call takes a number of them that depends on the numbers (a    *)
(* truncated draw repeats).  Checked: whatever the interleaving of seedings   *)
(* and calls, equal calls after equal seeds get equal results, and the result *)
(* of a call never depends on what happened before the seeding.               *)
EXTENDS Random, Json
CONSTANTS NMax
Seeds == {1, 2}
Kinds == {"raw", "unit", "uint", "nreal", "sample"}
VARIABLES seed, pos, segs, tr, cost
vars == <<seed, pos, segs, tr, cost>>
\* how many numbers a truncated draw takes, for a seed and position: anything, but fixed
Init == /\ cost \in [Seeds -> [0..1 -> 1..2]] /\ seed = 1 /\ pos = 0
        /\ segs = <<[seed |-> 1, calls |-> <<>>, res |-> <<>>]>> /\ tr = <<>>
Cost(k) == IF k \in {"nreal", "sample"} THEN cost[seed][pos % 2] ELSE 1
Seed(s) == /\ seed' = s /\ pos' = 0 /\ segs' = Append(segs, [seed |-> s, calls |-> <<>>, res |-> <<>>])
           /\ tr' = Append(tr, <<"seed", s>>) /\ UNCHANGED cost
Call(c) == /\ pos' = pos + Cost(c)
           /\ segs' = [segs EXCEPT ![Len(segs)].calls = Append(@, c), ![Len(segs)].res = Append(@, <<seed, pos, Cost(c)>>)]
           /\ tr' = Append(tr, <<"call", c>>) /\ UNCHANGED <<seed, cost>>
Next == Len(tr) < NMax /\ ((\E s \in Seeds : Seed(s)) \/ (\E c \in Kinds : Call(c)))
Spec == Init /\ [][Next]_vars
Repro == Reproducible(segs)
Schedules == (Len(tr) = NMax /\ cost = [s \in Seeds |-> [i \in 0..1 |-> 1]]) => PrintT("BEHAVIOUR " \o ToJson(tr))
=============================================================================
