----------------------------- MODULE MCContent -----------------------------
(* Every short history of making, merging, splitting and transmuting two    *)
(* materials, with what the queries must then satisfy among themselves.     *)
EXTENDS Content, Json
CONSTANTS NMax
VARIABLES ms, tr
vars == <<ms, tr>>
C(b, a, u, p, f, o) == [basis |-> b, w |-> <<a, u, p, f, o>>, has |-> {n \in N : <<a, u, p, f, o>>[n] > 0}]
Comps == <<C("mass", 1, 3, 0, 0, 0), C("atom", 2, 6, 1, 0, 7), C("mass", 0, 0, 4, 12, 0), C("atom", 1, 0, 0, 0, 2)>>
Ws == {<<1, 0, 0, 0, 0>>, <<1, 4, 0, 0, 0>>, <<2, 0, 1, 0, 1>>, <<0, 0, 1, 2, 0>>}
Init == \E c \in 1..4, d \in 1..4 : c <= d /\ ms = [i \in {1, 2} |-> Of(Comps[IF i = 1 THEN c ELSE d], IF i = 1 THEN 4800 ELSE 9600)] /\ tr = <<<<c, d>>>>
Log(x) == tr' = Append(tr, x)
Next == /\ Len(tr) <= NMax
        /\ \/ 2 \in DOMAIN ms /\ ms' = Put(Del(ms, 2), 1, Merge(ms[1], ms[2])) /\ Log(<<"abs">>)
           \/ \E i \in DOMAIN ms : \E k \in {2, 3} : 3 \notin DOMAIN ms /\ ms' = Put(Put(ms, 3, Part(ms[i], ms[i].q \div k)), i, Rest(ms[i], ms[i].q \div k)) /\ Log(<<"ext", i, k>>)
           \/ 3 \in DOMAIN ms /\ ms' = Put(Del(ms, 3), 1, Merge(ms[1], ms[3])) /\ Log(<<"abs3">>)
           \/ \E i \in DOMAIN ms, c \in 1..4 : ms' = Put(ms, i, Of(Comps[c], ms[i].q)) /\ Log(<<"trans", i, c>>)
Spec == Init /\ [][Next]_vars
(* ---- what must hold ---- *)
Whole == \A i \in DOMAIN ms : Abs(Sum(ms[i].m) - ms[i].q) <= 3 + 5 * ms[i].er /\ Abs(MassFrac(ms[i].m, N) - 10000) <= 1 /\ Abs(AtomFrac(ms[i].m, N) - 10000) <= 1
Additive == \A i \in DOMAIN ms : \A S \in SUBSET N : Abs(MassFrac(ms[i].m, S) + MassFrac(ms[i].m, N \ S) - MassFrac(ms[i].m, N)) <= 2
Kept == LET RECURSIVE T(_)
            T(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN ms[i].q + T(S \ {i})
        IN T(DOMAIN ms) = 14400
MostThereIs == \A i \in DOMAIN ms, w \in Ws : LET a == Amount(ms[i], w) IN
                 /\ \A n \in N : Less(ms[i], w, a)[n] >= 0
                 /\ \E n \in N : Less(ms[i], w, a + 2 * Sum(w))[n] < 0
Absent == \A i \in DOMAIN ms : \A n \in N \ ms[i].has : ms[i].m[n] = 0
Balance == \A f \in {50, 71, 100}, p \in {100, 300, 500, 9000}, t \in {10, 20, 30} : p >= f =>
             /\ Abs(Feed(1000, f, p, t) - 1000 - Tails(1000, f, p, t)) <= 1
             /\ Abs(1000 * p + Tails(1000, f, p, t) * t - Feed(1000, f, p, t) * f) <= f + t
             /\ Work(f, p, t) >= 0 /\ (p = f => Work(f, p, t) = 0)
Schedules == Len(tr) = NMax + 1 => PrintT("BEHAVIOUR " \o ToJson(tr))
=============================================================================
