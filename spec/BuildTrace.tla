----------------------------- MODULE BuildTrace -----------------------------
EXTENDS Build, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s, err
vars == <<h, l, s, err>>
Good(x) == [s |-> x, err |-> <<>>]
Bad(x, why) == [s |-> x, err |-> why]
Chk(c, x, why) == IF c THEN Good(x) ELSE Bad(x, why)

OrdersOk(x, e) ==
  LET o == e.ords
      f == [p \in {o[i].p : i \in DOMAIN o} |-> o[CHOOSE i \in DOMAIN o : o[i].p = p].n]
  IN IF e.res # "ok" THEN <<"decision-failed", e.res>>
     ELSE IF \E i, j \in DOMAIN o : i # j /\ o[i].p = o[j].p THEN <<"ordered-twice", o>>
     ELSE IF \E i \in DOMAIN o : o[i].n < 1 THEN <<"empty-order", o>>
     ELSE IF \E i \in DOMAIN o : ~(o[i].b \in x.bm /\ o[i].p \in Get(x.bs, o[i].b)) THEN <<"wrong-builder", o>>
     ELSE IF ~(DOMAIN f \subseteq Candidates(x, e.c)) THEN <<"not-a-producer", o>>
     ELSE IF e.d > 0 /\ Useful(x, e.c) # {} /\ ~Meets(x, e.c, f, e.d) THEN <<"demand-not-met", o, e.d>>
     ELSE IF ~RightTo(x, e.c, f, e.d, Step(x, e.c)) THEN <<"not-cheapest", o, e.d>>
     ELSE <<>>
RECURSIVE Built(_, _)
Built(x, nb) == IF nb = <<>> THEN x
  ELSE LET b == Head(nb) IN Built([x EXCEPT !.pr = Put(x.pr, b.p, [cap |-> 0, cost |-> Big, co |-> x.pr[b.q].co])], Tail(nb))
Grow(x, e) ==
  LET d == Val(x, x.de[e.c], 8 * e.t) - Supply(x, e.c)
      why == OrdersOk(x, [e EXCEPT !.d = d])
      y == Built(x, e.built)
      z == [y EXCEPT !.gs = Put(y.gs, e.g, Get(y.gs, e.g) \cup {e.built[i].p : i \in DOMAIN e.built})]
  IN IF e.d # d THEN Bad(x, <<"unmet-demand", d, e.d>>)
     ELSE IF why # <<>> THEN Bad(x, why)
     ELSE Chk(e.g \in z.sd /\ Useful(x, e.c) # {} => Supply(z, e.c) >= Supply(x, e.c) + d, z, <<"still-short", e>>)
Look(x, e) ==
  IF \E i \in DOMAIN e.prods : LET q == e.prods[i] IN
        \/ q.y # Makes(x, q.p, q.c) \/ q.l # q.y
        \/ q.y /\ (q.cap # CapOf(x, q.p, q.c) \/ q.cost # CostOf(x, q.p, q.c))
  THEN Bad(x, <<"producers", e.prods>>)
  ELSE IF \E i \in DOMAIN e.tots : LET q == e.tots[i] IN q.v # (IF q.g \in DOMAIN x.gs THEN Total(x, q.g, q.c) ELSE 0) THEN Bad(x, <<"total", e.tots>>)
  ELSE IF \E i \in DOMAIN e.sups : LET q == e.sups[i] IN
        \/ q.v # Supply(x, q.c) \/ q.m # (q.c \in DOMAIN x.de)
        \/ q.m /\ q.d # Val(x, x.de[q.c], 8 * e.t) THEN Bad(x, <<"supply-or-demand", e.sups>>)
  ELSE Good(x)
Apply(x, e) ==
  CASE e.op = "prod" -> Good([x EXCEPT !.pr = Put(x.pr, e.p, [cap |-> e.cap, cost |-> IF e.def THEN Big ELSE e.cost, co |-> NoFn])])
    [] e.op = "add" -> Good([x EXCEPT !.pr[e.p].co = IF e.c \in DOMAIN @ THEN @ ELSE Put(@, e.c, [cap |-> x.pr[e.p].cap, cost |-> x.pr[e.p].cost])])
    [] e.op = "addi" -> Good([x EXCEPT !.pr[e.p].co = IF e.c \in DOMAIN @ THEN @ ELSE Put(@, e.c, [cap |-> e.cap, cost |-> e.cost])])
    [] e.op = "setcap" -> Good([x EXCEPT !.pr[e.p].co[e.c].cap = e.v])
    [] e.op = "setcost" -> Good([x EXCEPT !.pr[e.p].co[e.c].cost = e.v])
    [] e.op = "rm" -> Good([x EXCEPT !.pr[e.p].co = Del(@, e.c)])
    [] e.op = "copy" -> Good([x EXCEPT !.pr = Put(x.pr, e.p, [cap |-> 0, cost |-> Big, co |-> x.pr[e.q].co])])
    [] e.op = "breg" -> Good([x EXCEPT !.bs = Put(x.bs, e.b, Get(x.bs, e.b) \cup {e.p})])
    [] e.op = "bunreg" -> Good([x EXCEPT !.bs = Put(x.bs, e.b, Get(x.bs, e.b) \ {e.p})])
    [] e.op = "mreg" -> Good([x EXCEPT !.bm = @ \cup {e.b}])
    [] e.op = "munreg" -> Good([x EXCEPT !.bm = @ \ {e.b}])
    [] e.op = "greg" -> Good([x EXCEPT !.gs = Put(x.gs, e.g, Get(x.gs, e.g) \cup {e.p})])
    [] e.op = "gunreg" -> Good([x EXCEPT !.gs = Put(x.gs, e.g, Get(x.gs, e.g) \ {e.p})])
    [] e.op = "retire" -> Chk(e.p = (IF Get(x.gs, e.g) = {} THEN -1 ELSE MinS(x.gs[e.g])), [x EXCEPT !.gs = Put(x.gs, e.g, Get(x.gs, e.g) \ {e.p})], <<"retire", e>>)
    [] e.op = "sreg" -> Good([x EXCEPT !.sd = @ \cup {e.g}, !.gs = Put(x.gs, e.g, Get(x.gs, e.g))])
    [] e.op = "sunreg" -> Good([x EXCEPT !.sd = @ \ {e.g}])
    [] e.op = "fun" -> LET k == IF e.ty \in {"lin", "linear"} THEN "lin" ELSE IF e.ty \in {"exp", "exponential"} THEN "exp" ELSE "" IN
                       Chk((k = "") <=> (e.res # "ok"), IF k = "" THEN x ELSE [x EXCEPT !.fn = Put(x.fn, e.n, [k |-> k, a |-> e.a, b |-> e.b, c |-> e.c])], <<"function", e>>)
    [] e.op = "pw" -> Good([x EXCEPT !.fn = Put(x.fn, e.n, [k |-> "pw", ps |-> <<>>])])
    [] e.op = "pwadd" -> IF PwOk(x, e.n, e.x) THEN Chk(e.res = "ok", PwAdd(x, e.n, e.f, e.x, e.cont), <<"piece-refused", e>>)
                         ELSE Chk(e.res # "ok", x, <<"piece-accepted", e>>)
    [] e.op = "val" -> Chk(e.v = Val(x, e.n, e.x), x, <<"value", e, Val(x, e.n, e.x)>>)
    [] e.op = "regc" -> Good([x EXCEPT !.de = IF e.c \in DOMAIN @ THEN @ ELSE Put(@, e.c, e.n)])
    [] e.op = "look" -> Look(x, e)
    [] e.op = "decide" -> LET why == OrdersOk(x, e) IN IF why = <<>> THEN Good(x) ELSE Bad(x, why)
    [] e.op = "grow" -> Grow(x, e)
    [] e.op = "end" -> Good(x)
    [] OTHER -> Bad(x, <<"unexplained", e>>)
TraceInit == h \in 1..Len(Hist) /\ l = 0 /\ s = S0 /\ err = <<>>
TraceNext == /\ err = <<>> /\ l < Len(Hist[h].ev)
             /\ LET r == Apply(s, Hist[h].ev[l + 1]) IN s' = r.s /\ err' = r.err
             /\ l' = l + 1 /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
