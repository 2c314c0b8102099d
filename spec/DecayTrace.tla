----------------------------- MODULE DecayTrace -----------------------------
EXTENDS Decay, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s, err
vars == <<h, l, s, err>>
Good(x) == [s |-> x, err |-> <<>>]
Bad(x, why) == [s |-> x, err |-> why]
Abs(n) == IF n < 0 THEN -n ELSE n
(* the atomic masses of parent and daughter differ a little, and the slow nuclide decays a little *)
Near(m, o) == LET t == 12 + Total(m) \div 4000 IN
              /\ \A i \in G : Abs(m[i] - o[i]) <= t
              /\ Abs(o[7]) <= t
ChkM(x, e, i, next) ==
  IF e.mq # next.ms[i].q THEN Bad(x, <<"quantity", next.ms[i].q, e.mq>>)
  ELSE IF e.mt # next.ms[i].last THEN Bad(x, <<"decay-time", next.ms[i].last, e.mt>>)
  ELSE IF "m" \in DOMAIN e /\ ~Near(next.ms[i].m, e.m) THEN Bad(x, <<"contents", next.ms[i].m, e.m>>)
  ELSE Good(next)
ChkC(x, e, i, next) == IF Near(next.cs[i].m, e.m) THEN Good(next) ELSE Bad(x, <<"composition", next.cs[i].m, e.m>>)
PutM(x, i, v) == [x EXCEPT !.ms = Put(@, i, v)]
Apply(x, e) ==
  IF e.op = "init" THEN Good([x EXCEPT !.mode = e.mode, !.k = e.k])
  ELSE IF e.op = "t" THEN Good([x EXCEPT !.now = @ + 1])
  ELSE IF e.op = "end" THEN (IF e.res = "ok" THEN Good(x) ELSE Bad(x, <<"run-failed">>))
  ELSE IF e.op \notin {"comp", "cdec", "clook", "udec", "mk", "ext", "abs", "cln", "trans", "dec", "bdec", "look"} THEN Bad(x, <<"unexplained", e>>)
  ELSE IF e.res # "ok" THEN Bad(x, <<"refused", e>>)
  ELSE IF e.now # x.now THEN Bad(x, <<"time", x.now, e.now>>)
  ELSE CASE e.op = "comp" -> ChkC(x, e, e.x, [x EXCEPT !.cs = Put(@, e.x, [m |-> [i \in G |-> e.w[i] * 4096], has |-> [i \in G |-> e.w[i] > 0]])])
    [] e.op = "cdec" -> LET c == x.cs[e.x] IN
         ChkC(x, e, e.y, [x EXCEPT !.cs = Put(@, e.y, [m |-> Age(c.m, e.n * e.f), has |-> IF c.has[1] THEN [c.has EXCEPT ![2] = TRUE] ELSE c.has])])
    [] e.op = "clook" -> ChkC(x, e, e.x, x)
    [] e.op = "udec" -> Good(x)
    [] e.op = "mk" -> ChkM(x, e, e.x, PutM(x, e.x, New(x, x.cs[e.c], e.q)))
    [] e.op = "ext" -> LET a == x.ms[e.x] IN
         IF e.yq # e.q THEN Bad(x, <<"part", e.q, e.yq>>)
         ELSE IF e.yt # a.last THEN Bad(x, <<"part-time", a.last, e.yt>>)
         ELSE ChkM(x, e, e.x, PutM(PutM(x, e.x, Rest(a, e.q)), e.y, Part(a, e.q)))
    [] e.op = "abs" -> LET a == Seen(x, x.ms[e.x]) b == Seen(x, x.ms[e.y]) IN
         (* which of two different times a merged material keeps is not promised *)
         IF e.mt \notin {a.last, b.last} THEN Bad(x, <<"merged-time", a.last, b.last, e.mt>>)
         ELSE ChkM(x, e, e.x, [x EXCEPT !.ms = Put(Del(@, e.y), e.x, [Sum(a, b) EXCEPT !.last = e.mt])])
    [] e.op = "cln" -> ChkM(x, e, e.y, PutM(x, e.y, x.ms[e.x]))
    [] e.op = "trans" -> LET a == x.ms[e.x] c == x.cs[e.c] IN
         ChkM(x, e, e.x, PutM(x, e.x, [a EXCEPT !.m = Of(c, a.q), !.has = c.has, !.last = IF @ < x.now THEN x.now ELSE @]))
    [] e.op = "dec" -> ChkM(x, e, e.x, PutM(x, e.x, To(x, x.ms[e.x], IF e.t < 0 THEN x.now ELSE e.t)))
    [] e.op = "bdec" -> LET y == [x EXCEPT !.ms = [i \in DOMAIN @ |-> To(x, @[i], IF e.x < 0 THEN x.now ELSE e.x)]] IN
         IF \E i \in DOMAIN e.all : e.all[i].mt # y.ms[e.all[i].x].last THEN Bad(x, <<"decay-time", e.all, y.ms>>) ELSE Good(y)
    [] e.op = "look" -> ChkM(x, e, e.x, PutM(x, e.x, Seen(x, x.ms[e.x])))
TraceInit == h \in 1..Len(Hist) /\ l = 0 /\ s = S0 /\ err = <<>>
TraceNext == /\ err = <<>> /\ l < Len(Hist[h].ev)
             /\ LET r == Apply(s, Hist[h].ev[l + 1]) IN s' = r.s /\ err' = r.err
             /\ l' = l + 1 /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
