------------------------------ MODULE MCDecay ------------------------------
(* Every way to let time pass, decay, read, split, merge and transmute two  *)
(* materials of the same age: contents depend on the elapsed time alone.    *)
EXTENDS Decay, Json
CONSTANTS NMax
VARIABLES s, born, tr
vars == <<s, born, tr>>
C(p, d, st, q, b) == [m |-> <<p * 4096, d * 4096, st * 4096, q * 4096, 0, b * 4096>>, has |-> <<p > 0, d > 0, st > 0, q > 0, FALSE, b > 0>>]
Comps == [i \in 1..4 |-> CASE i = 1 -> C(16, 0, 0, 0, 0) [] i = 2 -> C(0, 0, 16, 0, 0) [] i = 3 -> C(8, 0, 4, 0, 4) [] i = 4 -> C(0, 0, 8, 8, 0)]
Init == \E mode \in {"manual", "lazy", "never"}, c \in {1, 3, 4} :
          LET z == [S0 EXCEPT !.mode = mode, !.k = 2, !.cs = Comps] IN
          /\ s = [z EXCEPT !.ms = [i \in {1} |-> New(z, Comps[c], 16)]]
          /\ born = [i \in {1} |-> [t |-> 0, p |-> New(z, Comps[c], 16).m[1]]]
          /\ tr = <<<<mode, c>>>>
Upd(i, v) == s' = [s EXCEPT !.ms = Put(@, i, v)]
Log(x) == tr' = Append(tr, x)
Tick == s' = [s EXCEPT !.now = @ + 1] /\ UNCHANGED born /\ Log(<<"t">>)
Dec(i) == Upd(i, To(s, s.ms[i], s.now)) /\ UNCHANGED born /\ Log(<<"dec", i>>)
Look(i) == Upd(i, Seen(s, s.ms[i])) /\ UNCHANGED born /\ Log(<<"look", i>>)
Ext == /\ 2 \notin DOMAIN s.ms
       /\ s' = [s EXCEPT !.ms = Put(Put(@, 1, Rest(@[1], 4)), 2, Part(@[1], 4))]
       /\ born' = Put(Put(born, 1, [born[1] EXCEPT !.p = @ - (@ \div 4)]), 2, [born[1] EXCEPT !.p = @ \div 4])
       /\ Log(<<"ext">>)
Abs == /\ 2 \in DOMAIN s.ms /\ born[1].t = born[2].t
       /\ LET a == Seen(s, s.ms[1]) b == Seen(s, s.ms[2]) IN
          /\ a.last = b.last
          /\ s' = [s EXCEPT !.ms = Put(Del(@, 2), 1, Sum(a, b))]
       /\ born' = Del(Put(born, 1, [born[1] EXCEPT !.p = @ + born[2].p]), 2)
       /\ Log(<<"abs">>)
Trans(i, c) == /\ s' = [s EXCEPT !.ms = Put(@, i, [@[i] EXCEPT !.m = Of(s.cs[c], s.ms[i].q), !.has = s.cs[c].has, !.last = s.now])]
               /\ born' = Put(born, i, [t |-> s.now, p |-> Of(s.cs[c], s.ms[i].q)[1]])
               /\ Log(<<"trans", i, c>>)
Next == /\ Len(tr) <= NMax
        /\ \/ Tick \/ Ext \/ Abs
           \/ \E i \in DOMAIN s.ms : Dec(i) \/ Look(i) \/ \E c \in {1, 2} : Trans(i, c)
Spec == Init /\ [][Next]_vars
(* ---- what must hold ---- *)
OnlyTime == \A i \in DOMAIN s.ms : LET x == s.ms[i] IN
              IF s.mode = "never" THEN x.m[1] = born[i].p ELSE x.has[1] => x.m[1] = Half(born[i].p, x.last - born[i].t)
Kept == \A i \in DOMAIN s.ms : Total(s.ms[i].m) = s.ms[i].q * 8192
ReadIsNow == s.mode = "lazy" => \A i \in DOMAIN s.ms : LET x == Seen(s, s.ms[i]) IN x.has[1] => x.last = s.now
NotAhead == \A i \in DOMAIN s.ms : s.ms[i].last <= s.now
Schedules == Len(tr) = NMax + 1 => PrintT("BEHAVIOUR " \o ToJson(tr))
=============================================================================
