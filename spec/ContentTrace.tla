---------------------------- MODULE ContentTrace ----------------------------
EXTENDS Content, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s, err
vars == <<h, l, s, err>>
Good(x) == [s |-> x, err |-> <<>>]
Bad(x, why) == [s |-> x, err |-> why]
S0 == [cs |-> [y \in {} |-> 0], ms |-> [y \in {} |-> 0]]
Range(q) == {q[i] : i \in DOMAIN q}
PutM(x, i, v) == [x EXCEPT !.ms = Put(@, i, v)]
(* allowed difference of a fraction (1/10000) when the masses may be off by er each *)
Slack(m) == 3 + (m.er * 5 * 10000) \div Sum(m.m)
MolTol(m, n) == 2 + Mol(m.m)[n] \div 900 + (m.er * 100000) \div A[n]
UM(m) == Frac(m[1], m[1] + m[2])
UA(m) == Frac(Mol(m)[1], Mol(m)[1] + Mol(m)[2])
USlack(m) == 3 + (m.er * 2 * 10000) \div (m.m[1] + m.m[2] + 1)
ChkQ(x, e, next, i) == IF e.mq = next.ms[i].q THEN Good(next) ELSE Bad(x, <<"quantity", next.ms[i].q, e.mq>>)
(* every light nuclide makes the atom fractions sensitive to its mass *)
ASlack(m) == 6 + (m.er * 5 * 10000 * 15) \div Sum(m.m)
Look(x, e) ==
  LET m == x.ms[e.x] T == Range(e.set) IN
  IF e.q # m.q THEN Bad(x, <<"quantity", m.q, e.q>>)
  ELSE IF \E n \in N : Abs(e.mass[n] - m.m[n]) > 1 + m.er THEN Bad(x, <<"mass", m.m, e.mass>>)
  ELSE IF \E n \in N : Abs(e.mf[n] - MassFrac(m.m, {n})) > Slack(m) THEN Bad(x, <<"mass-fraction", m.m, e.mf>>)
  ELSE IF \E n \in N : Abs(e.af[n] - AtomFrac(m.m, {n})) > ASlack(m) THEN Bad(x, <<"atom-fraction", m.m, e.af>>)
  ELSE IF \E n \in N : Abs(e.mol[n] - Mol(m.m)[n]) > MolTol(m, n) THEN Bad(x, <<"moles", Mol(m.m), e.mol>>)
  ELSE IF \E n \in N : n \notin m.has /\ (e.mass[n] # 0 \/ e.mf[n] # 0 \/ e.af[n] # 0 \/ e.mol[n] # 0) THEN Bad(x, <<"absent", m.has, e>>)
  ELSE IF e.names # TRUE THEN Bad(x, <<"by-name-differs", e>>)
  ELSE IF Abs(e.smf - MassFrac(m.m, T)) > Slack(m) THEN Bad(x, <<"mass-fraction-of-set", T, m.m, e.smf>>)
  ELSE IF Abs(e.saf - AtomFrac(m.m, T)) > ASlack(m) THEN Bad(x, <<"atom-fraction-of-set", T, m.m, e.saf>>)
  ELSE IF Abs(e.um - UM(m.m)) > USlack(m) THEN Bad(x, <<"assay-by-mass", m.m, e.um>>)
  ELSE IF Abs(e.ua - UA(m.m)) > USlack(m) \/ e.ua2 # e.ua THEN Bad(x, <<"assay-by-atoms", m.m, e.ua, e.ua2>>)
  ELSE IF Abs(e.uq - m.m[1] - m.m[2]) > 1 + 2 * m.er THEN Bad(x, <<"uranium", m.m, e.uq>>)
  ELSE IF Range(e.nucs) # m.has THEN Bad(x, <<"nuclides", m.has, e.nucs>>)
  ELSE Good(x)
AmtTol(m, w) == 2 + (m.er * Sum(w)) \div Min({w[n] : n \in {k \in N : w[k] > 0}})
Amt(x, e) ==
  LET m == x.ms[e.x] a == Amount(m, e.w) need == {n \in N : e.w[n] > 0} IN
  IF ~(need \subseteq m.has) THEN (IF e.a = 0 THEN Good(x) ELSE Bad(x, <<"amount-of-absent", m.m, e.w, e.a>>))
  ELSE IF Abs(e.a - a) > AmtTol(m, e.w) THEN Bad(x, <<"amount", m.m, e.w, a, e.a>>)
  ELSE IF e.took # "ok" THEN Bad(x, <<"amount-not-there", e>>)
  ELSE IF e.more = "ok" THEN Bad(x, <<"more-than-the-amount-is-there", e>>)
  ELSE IF e.q # m.q THEN Bad(x, <<"query-changed-the-material", m.q, e.q>>)
  ELSE Good(x)
(* equal within thr/10000 of either fraction, for every nuclide *)
Close(a, b, thr, sl) == /\ Abs(a - b) + sl <= (a * thr) \div 10000 /\ Abs(a - b) + sl <= (b * thr) \div 10000
Far(a, b, thr, sl) == \/ Abs(a - b) - sl > (a * thr) \div 10000 + 1 \/ Abs(a - b) - sl > (b * thr) \div 10000 + 1
Eq(x, e) ==
  LET a == x.ms[e.x] b == x.ms[e.y] sl == Slack(a) + Slack(b) IN
  IF e.x = e.y THEN (IF e.r THEN Good(x) ELSE Bad(x, <<"not-equal-to-itself", e>>))
  ELSE IF a.has # b.has THEN (IF e.r THEN Bad(x, <<"equal-but-other-nuclides", a, b>>) ELSE Good(x))
  ELSE IF \E n \in a.has : Far(MassFrac(a.m, {n}), MassFrac(b.m, {n}), e.thr, sl) THEN (IF e.r THEN Bad(x, <<"equal-but-far", a, b, e.thr>>) ELSE Good(x))
  ELSE IF \A n \in a.has : Close(MassFrac(a.m, {n}), MassFrac(b.m, {n}), e.thr, sl) THEN (IF e.r THEN Good(x) ELSE Bad(x, <<"close-but-unequal", a, b, e.thr>>))
  ELSE Good(x)
Enr(x, e) ==
  IF e.gf # e.f \/ e.gp # e.p \/ e.gt # e.t THEN Bad(x, <<"assays", e>>)
  ELSE IF Abs(e.feed * (e.f - e.t) - e.q * 100 * (e.p - e.t)) > e.f - e.t THEN Bad(x, <<"feed", e>>)
  ELSE IF Abs(e.tails * (e.f - e.t) - e.q * 100 * (e.p - e.f)) > e.f - e.t THEN Bad(x, <<"tails", e>>)
  ELSE LET w == e.q * (Work(e.f, e.p, e.t) \div 100) IN
       IF Abs(e.swu * (e.f - e.t) - w) > 1 + e.q + (e.f - e.t) + (e.q * (2 * e.p + e.f)) \div 100 THEN Bad(x, <<"separative-work", w, e>>)
       ELSE Good(x)
Vf(x, e) ==
  IF e.a < 0 \/ e.a >= 10000 THEN (IF e.res = "ok" THEN Bad(x, <<"value-outside-the-range", e>>) ELSE Good(x))
  ELSE IF e.res # "ok" THEN Bad(x, <<"refused", e>>)
  ELSE IF Abs(e.v - V(e.a)) > 1 THEN Bad(x, <<"value-function", V(e.a), e.v>>) ELSE Good(x)
Apply(x, e) ==
  IF e.op = "vf" THEN Vf(x, e)
  ELSE IF e.op \notin {"comp", "mk", "abs", "ext", "trans", "look", "amt", "eq", "enr"} THEN Bad(x, <<"unexplained", e>>)
  ELSE IF e.res # "ok" THEN Bad(x, <<"refused", e>>)
  ELSE CASE e.op = "comp" -> Good([x EXCEPT !.cs = Put(@, e.x, [basis |-> e.basis, w |-> e.w, has |-> {n \in N : e.w[n] > 0}])])
    [] e.op = "mk" -> ChkQ(x, e, PutM(x, e.x, Of(x.cs[e.c], e.q)), e.x)
    [] e.op = "trans" -> ChkQ(x, e, PutM(x, e.x, Of(x.cs[e.c], x.ms[e.x].q)), e.x)
    [] e.op = "abs" -> ChkQ(x, e, [x EXCEPT !.ms = Put(Del(@, e.y), e.x, Merge(@[e.x], @[e.y]))], e.x)
    [] e.op = "ext" -> ChkQ(x, e, PutM(PutM(x, e.y, Part(x.ms[e.x], e.q)), e.x, Rest(x.ms[e.x], e.q)), e.x)
    [] e.op = "look" -> Look(x, e)
    [] e.op = "amt" -> Amt(x, e)
    [] e.op = "eq" -> Eq(x, e)
    [] e.op = "enr" -> Enr(x, e)
TraceInit == h \in 1..Len(Hist) /\ l = 0 /\ s = S0 /\ err = <<>>
TraceNext == /\ err = <<>> /\ l < Len(Hist[h].ev)
             /\ LET r == Apply(s, Hist[h].ev[l + 1]) IN s' = r.s /\ err' = r.err
             /\ l' = l + 1 /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
