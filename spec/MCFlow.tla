------------------------------- MODULE MCFlow -------------------------------
(* Small markets and herds, every way the exchange may choose among them.    *)
EXTENDS Flow, Json
CONSTANTS Dur, Big
VARIABLES x, sent, cfg
vars == <<x, sent, cfg>>
U == 256
Src(n, c, rec, cap, k) == [name |-> n, k |-> "source", c |-> c, rec |-> rec, cap |-> cap * U, life |-> -1, n |-> k]
Snk(n, cs, cap, max, life) == [name |-> n, k |-> "sink", cs |-> cs, rec |-> "", cap |-> cap * U, max |-> IF max < 0 THEN -1 ELSE max * U, life |-> life, n |-> 1]
Kf(ci, co, kin, kout, max) == [name |-> "kf", k |-> "kfac", ci |-> ci, co |-> co, rec |-> "r", cin |-> U, cout |-> U, kin |-> kin, kout |-> kout,
                               max |-> IF max < 0 THEN -1 ELSE max * U, life |-> -1, n |-> 1]
Prey(bf, bad, n) == [name |-> "prey", k |-> "prey", c |-> "a", age |-> 0, nch |-> 1, bf |-> bf, bad |-> bad, life |-> -1, n |-> n]
Pred(full, hf, hcap, succ, fac, span, bad, n) ==
  [name |-> "fox", k |-> "pred", c |-> "a", prey |-> "prey", full |-> full * U, hf |-> hf, hcap |-> hcap * U, succ |-> succ, fac |-> fac, age |-> 0,
   span |-> span, nch |-> 1, bad |-> bad, life |-> -1, n |-> n]
Markets == {<<Src("s0", "a", r, c0, 1), Src("s1", c1, "r", 1, k), Snk("d0", cs, c2, m, l)>> :
              r \in {"", "r"}, c0 \in {0, 2}, c1 \in {"a", "b"}, k \in {0, 1}, cs \in {<<"a">>, <<"a", "b">>}, c2 \in {1, 3}, m \in {-1, 2, 3}, l \in {-1, 2}}
        \cup {<<Src("s0", "a", "r", c0, 1), Snk("d0", <<"b", "a">>, c2, m, -1), Kf("a", "b", ki, ko, km)>> :
              c0 \in {1, 2}, c2 \in {1, 3}, m \in {-1, 2}, ki \in {"half", "same", "double", "zero"}, ko \in {"half", "double", "zero"}, km \in {-1, 1}}
        \cup {<<Src("s0", "a", "r", c0, 1), Snk("d0", <<"a">>, c2, 2, -1), Snk("d1", <<"a">>, 1, m, 2)>> : c0 \in {1, 2, 3}, c2 \in {1, 2}, m \in {-1, 1, 2}}
Herds == {<<Prey(bf, bad, n), Pred(full, hf, hcap, succ, fac, span, pb, k)>> :
              bf \in {1, 2}, bad \in BOOLEAN, n \in {1, 2}, full \in {1, 2}, hf \in {1, 2}, hcap \in {1, 2}, succ \in {1, 2}, fac \in BOOLEAN, span \in {1, 2},
              pb \in IF Big THEN BOOLEAN ELSE {FALSE}, k \in IF Big THEN {1, 2} ELSE {1}}
Init == \E c \in Markets \cup Herds :
          /\ cfg = c
          /\ x = [S0 EXCEPT !.ps = c, !.due = [i \in 1..Len(c) |-> c[i].n]]
          /\ sent = 0
(* new agents get the next ids, prototype by prototype *)
RECURSIVE Newcomers(_, _, _)
Newcomers(z, i, next) ==
  IF i > Len(z.ps) THEN <<>>
  ELSE [a \in next..(next + z.due[i] - 1) |-> Agent(z, i, z.t = 0)] @@ Newcomers(z, i + 1, next + z.due[i])
(* requests served one after another, each from any supplier with something left *)
RECURSIVE Fill(_, _)
Fill(y, T) ==
  LET open == {p \in (DOMAIN y.ag) \X (DOMAIN y.ag) : May(y, p[1], p[2]) /\ p \notin DOMAIN T /\ Sent(T, p[1]) < Supply(y, p[1]) /\ Got(T, p[2]) < Demand(y, p[2])} IN
  IF open = {} THEN {T}
  ELSE LET r == CHOOSE r \in {p[2] : p \in open} : \A p \in open : r <= p[2] IN
       UNION {Fill(y, (p :> Min2(Supply(y, p[1]) - Sent(T, p[1]), Demand(y, p[2]) - Got(T, p[2]))) @@ T) : p \in {p \in open : p[2] = r}}
Step ==
  /\ x.t < Dur
  /\ LET y == Enter(x, Newcomers(x, 1, 1 + 100 * x.t)) IN
     \E T \in Fill(y, <<>>) :
          /\ Assert(TradesWrong(y, T) = <<>>, <<"not allowed", T>>)
          /\ x' = Close(Trade(y, T))
          /\ sent' = sent + SumOver(T, DOMAIN T)
  /\ UNCHANGED cfg
Done == x.t = Dur /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
(* ---- what must hold ---- *)
WithinInventory == \A a \in DOMAIN x.ag : K(x, a) \in {"sink", "kfac"} /\ P(x, a).max >= 0 => x.ag[a].inv <= P(x, a).max
NothingFromNothing == SumOver([a \in DOMAIN x.ag |-> x.ag[a].inv], DOMAIN x.ag) <= sent
AllKept == (\A i \in 1..Len(cfg) : cfg[i].life < 0 /\ cfg[i].k # "pred") => SumOver([a \in DOMAIN x.ag |-> x.ag[a].inv], DOMAIN x.ag) = sent
DeadGone == \A a \in DOMAIN x.ag : ~x.ag[a].dead
Throughput == \A a \in DOMAIN x.ag : K(x, a) = "sink" => x.ag[a].inv <= (x.t - x.ag[a].born) * P(x, a).cap
Configs == x.t = 0 => PrintT("BEHAVIOUR " \o ToJson([ps |-> cfg, n |-> 0]))
=============================================================================
