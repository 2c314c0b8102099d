--------------------------- MODULE PolicyTrace ---------------------------
(* Recorded executions of the real buy and sell policies.                    *)
EXTENDS Policy, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>

K0 == [bf |-> <<>>, tk |-> <<>>, pkgs |-> <<>>, tus |-> <<>>, by |-> <<>>, sl |-> <<>>, ask |-> <<>>, bid |-> <<>>, t |-> 0, done |-> FALSE]
Good(x) == [k |-> x, err |-> <<>>]
Bad(x, why) == [k |-> x, err |-> why]
Put2(f, i, v) == (i :> v) @@ f
In(v, s) == \E i \in DOMAIN s : s[i] = v
Close(a, b) == Near(a, b, 1)
Member(c, s) == c \in DOMAIN s

\* the step's draw of a length: the default when no distribution was given
Draw(d, dist, dflt) == IF dist = <<>> THEN dflt ELSE IF d = <<>> THEN -999 ELSE Last(d)
BufsOk(x, e) == Len(e.bufs) = Len(x.bf) /\ \A i \in DOMAIN x.bf : Close(e.bufs[i], x.bf[i].q)
Sync(x, e) == [x EXCEPT !.bf = [i \in DOMAIN @ |-> [@[i] EXCEPT !.q = e.bufs[i]]]]
Ended(x, e, why) == IF BufsOk(x, e) THEN Good(Sync(x, e)) ELSE Bad(x, <<why, e, x.bf>>)
NoRows(x, e) == IF e.rows # <<>> THEN Bad(x, <<"unexpected-period", e>>) ELSE Ended(x, e, "buffers")

Cyc(p) == p.cap > 0
RowIs(r, at, ty, len) == r.mine /\ r.at = at /\ r.ty = ty /\ r.len = len

\* the parameters an initialisation sets; the others keep their value
Params(x, p, e) ==
  LET c == Cap(x, e.b)
      base == [p EXCEPT !.b = e.b, !.k = e.k]
      inv(z) == LET y == [z EXCEPT !.req = Min2(e.req, c)] IN
                IF e.pol \in {"ss", "sS", "SS", "Ss"} THEN [y EXCEPT !.fill = Min2(e.fill, c)]
                ELSE [y EXCEPT !.q = e.fill, !.fill = Min2(e.req + e.fill, c)]
  IN CASE e.mode = "plain" -> base
       [] e.mode = "cycle" -> [base EXCEPT !.thr = e.thr, !.ad = e.ad, !.dd = e.dd, !.sd = e.sd]
       [] e.mode = "quant" -> [base EXCEPT !.thr = e.thr, !.q = e.q]
       [] e.mode = "inv" -> inv([base EXCEPT !.thr = e.thr])
       [] e.mode = "inv0" -> inv(base)
       [] e.mode = "cum" -> [base EXCEPT !.thr = e.thr, !.cap = Min2(e.cap, c), !.dd = e.dd]
BuyOk(x, e) ==
  /\ e.k = 0 \/ In(e.b, x.tk[e.k].b)
  /\ e.mode \in {"inv", "inv0"} => e.pol \in {"ss", "sS", "SS", "Ss", "rq", "RQ", "Rq", "qr", "QR"}
  /\ e.mode = "cycle" => \A i \in DOMAIN e.sd : e.sd[i] <= 16
Periods(x, p, e) ==   \* the periods declared when a policy is initialised
  LET al == Draw(e.draw.a, p.ad, 1)
      never == p.dd = <<>> \/ (e.draw.d # <<>> /\ e.draw.d[1] < 0)
      dl == Draw(e.draw.d, p.dd, -1)
      ae == al + x.t
      act == IF Cyc(p) THEN "CumulativeCap" ELSE "Active"
      ds == Max2(ae, 1)
  IN IF Len(e.rows) < 1 \/ ~RowIs(e.rows[1], x.t, act, al) THEN Bad(x, <<"active-period", e>>)
     ELSE IF never \/ Cyc(p)
     THEN (IF Len(e.rows) # 1 THEN Bad(x, <<"dormant-period", e>>) ELSE Good([x EXCEPT !.by = Put2(@, e.p, [p EXCEPT !.ae = ae, !.de = -1])]))
     ELSE IF Len(e.rows) # 2 \/ ~RowIs(e.rows[2], ds, "Dormant", dl) THEN Bad(x, <<"dormant-period", e, ds, dl>>)
     ELSE Good([x EXCEPT !.by = Put2(@, e.p, [p EXCEPT !.ae = ae, !.de = ds + dl])])
OpBuy(x, e) ==
  LET p == Params(x, IF Member(e.p, x.by) THEN x.by[e.p] ELSE B0, e) IN
  IF ~BuyOk(x, e) THEN (IF e.res = "ValueError" THEN Good([x EXCEPT !.by = [i \in DOMAIN @ \ {e.p} |-> @[i]]]) ELSE Bad(x, <<"bad-setting-accepted", e>>))
  ELSE IF e.res # "ok" THEN Bad(x, <<"setting-refused", e>>)
  ELSE Periods(x, p, e)

\* after asking: a dormancy that ends now starts the next cycle
Renew(x, p, e) ==
  IF x.t # p.de THEN (IF e.rows # <<>> THEN Bad(x, <<"unexpected-period", e>>) ELSE Good([x EXCEPT !.by = Put2(@, e.p, p)]))
  ELSE IF Cyc(p) THEN (IF e.rows # <<>> THEN Bad(x, <<"unexpected-period", e>>) ELSE Good([x EXCEPT !.by = Put2(@, e.p, [p EXCEPT !.de = -1])]))
  ELSE LET al == Draw(e.draw.a, p.ad, 1)
           dl == Draw(e.draw.d, p.dd, -1)
           ae == al + x.t
           ds == Max2(ae, 1)
       IN IF Len(e.rows) # 2 \/ ~RowIs(e.rows[1], x.t, "Active", al) \/ ~RowIs(e.rows[2], ds, "Dormant", dl) THEN Bad(x, <<"next-cycle", e, al, ds, dl>>)
          ELSE Good([x EXCEPT !.by = Put2(@, e.p, [p EXCEPT !.ae = ae, !.de = ds + dl])])
\* every portfolio holds one request per commodity, mutually exclusive
PortOk(p, z, q) ==
  /\ Close(z.q, q) \/ (q >= Inf \div 2 /\ z.q >= Inf \div 2)
  /\ Len(z.r) = Cardinality(DOMAIN p.com)
  /\ {z.r[i].c : i \in DOMAIN z.r} = DOMAIN p.com
  /\ \A i \in DOMAIN z.r : LET r == z.r[i] IN
       /\ r.mine /\ r.ex = (p.q > 0) /\ (Close(r.q, q) \/ (q >= Inf \div 2 /\ r.q >= Inf \div 2))
       /\ r.comp = p.com[r.c].comp /\ r.pref = p.com[r.c].pref
OpAsk(x, e) ==
  IF ~Member(e.p, x.by) THEN Good(x)
  ELSE
  LET p == x.by[e.p]
      size == IF p.sd = <<>> \/ e.draw.s = <<>> THEN 16 ELSE e.draw.s[1]
      amt == Amount(x, p, x.t, size)
      n == IF ~Asks(x, p, x.t, size) \/ p.com = <<>> THEN 0 ELSE IF p.q > 0 THEN Lots(x, p, size) ELSE 1
      q == IF p.q > 0 THEN p.q ELSE amt
  IN IF e.res # "ok" THEN Bad(x, <<"ask-failed", e>>)
     ELSE IF Wants(x, p, x.t) /\ p.sd # <<>> /\ e.draw.s = <<>> THEN Bad(x, <<"size-not-drawn", e>>)
     ELSE IF Len(e.ports) # n THEN Bad(x, <<"requests", e, "expected", n, q, p>>)
     ELSE IF \E i \in DOMAIN e.ports : ~PortOk(p, e.ports[i], q) THEN Bad(x, <<"request", e, q, p>>)
     ELSE LET r == Renew([x EXCEPT !.ask = Put2(@, e.p, e.ports)], p, e) IN IF r.err # <<>> THEN r ELSE Ended(r.k, e, "buffers")

OpFill(x, e) ==
  IF ~Member(e.p, x.by) THEN Good(x)
  ELSE
  LET p == x.by[e.p]
      tot == SumSeq([i \in DOMAIN e.got |-> e.got[i].q])
      cyc == p.cyc + (IF Cyc(p) THEN tot ELSE 0)
      over == Cyc(p) /\ p.cap - cyc < Eps
      dl == Draw(e.draw.d, p.dd, -1)
      y == [x EXCEPT !.bf[p.b].q = @ + tot]
  IN IF e.res # "ok" THEN Bad(x, <<"delivery-refused", e>>)
     ELSE IF Len(e.from) # Len(e.got) \/ e.nfrom # Len(e.got) \/ \E i \in DOMAIN e.got : e.from[i] # e.got[i].c THEN Bad(x, <<"commodity-of-delivery", e>>)
     ELSE IF ~over THEN (IF e.rows # <<>> THEN Bad(x, <<"unexpected-period", e>>) ELSE Ended([y EXCEPT !.by[e.p].cyc = cyc], e, "buffers"))
     ELSE IF Len(e.rows) # 1 \/ ~RowIs(e.rows[1], x.t + 1, "Dormant", dl) THEN Bad(x, <<"cumulative-dormancy", e, p>>)
     ELSE Ended([y EXCEPT !.by[e.p].cyc = 0, !.by[e.p].de = x.t + 1 + dl], e, "buffers")

\* sell policies
SParams(x, s, e) ==
  LET base == [s EXCEPT !.b = e.b] IN
  CASE e.mode = "plain" -> base
    [] e.mode = "thr" -> [base EXCEPT !.thr = e.thr]
    [] e.mode = "ign" -> [base EXCEPT !.ign = e.ign]
    [] e.mode = "both" -> [base EXCEPT !.thr = e.thr, !.ign = e.ign]
    [] e.mode = "full" -> [base EXCEPT !.thr = e.thr, !.ign = e.ign, !.q = e.q, !.pkg = e.pkg, !.tu = e.tu]
Known(x, e) == (e.pkg = NoPkg \/ Member(e.pkg, x.pkgs)) /\ (e.tu = "unrestricted" \/ Member(e.tu, x.tus))
\* lots of a fixed size must fill exactly one package and be shippable one at a time
LotOk(x, e) ==
  e.q = 0 \/
  (/\ e.pkg = NoPkg \/ (~Random(PkgOf(x, e.pkg)) /\ FillSeq(PkgOf(x, e.pkg), e.q) = <<e.q>>)
   /\ e.tu = "unrestricted" \/ Ships(TuOf(x, e.tu), 1) = 1)
OpSell(x, e) ==
  LET ok == e.mode # "full" \/ (Known(x, e) /\ LotOk(x, e)) IN
  IF e.res = "ok" THEN (IF ok THEN Ended([x EXCEPT !.sl = Put2(@, e.p, SParams(x, IF Member(e.p, @) THEN @[e.p] ELSE S0, e))], e, "buffers") ELSE Bad(x, <<"bad-setting-accepted", e>>))
  ELSE IF ok THEN Bad(x, <<"setting-refused", e>>)
  ELSE Good([x EXCEPT !.sl = [i \in DOMAIN @ \ {e.p} |-> @[i]]])

Of(e, r) == SelectSeq(e.bids, LAMBDA b : b.r = r)
SameLots(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Close(a[i], b[i])
Desc(s) == SortSeq(s, LAMBDA a, b : a > b)
OpBid(x, e) ==
  IF ~Member(e.p, x.sl) THEN Good(x)
  ELSE
  LET s == x.sl[e.p]
      lim == Limit(x, s)
      none == Qty(x, s.b) < Eps \/ lim < Eps
      pk == PkgOf(x, s.pkg)
      BadReq(i) ==
        LET r == e.reqs[i]  o == Of(e, i)
            qs == [j \in DOMAIN o |-> o[j].q]
            q == Min2(r.q, lim)
        IN IF r.c \notin s.com THEN o # <<>>
           ELSE \/ (IF Random(pk) /\ s.q = 0 THEN (\E j \in DOMAIN qs : ~FitsPkg(pk, qs[j], 1)) \/ SumSeq(qs) > q + Len(qs) \/ ~(Ships(TuOf(x, s.tu), Len(qs)) = Len(qs))
                    ELSE ~SameLots(qs, Desc(Offers(x, s, q))))
                \/ \E j \in DOMAIN o : ~o[j].mine \/ o[j].ex # (s.q > 0) \/ o[j].comp # (IF s.ign THEN r.comp ELSE x.bf[s.b].comp)
  IN IF e.res # "ok" THEN Bad(x, <<"bid-failed", e>>)
     ELSE IF ~Close(e.lim, lim) THEN Bad(x, <<"limit", e, lim>>)
     ELSE IF none THEN (IF e.bids # <<>> THEN Bad(x, <<"bids-from-nothing", e, s>>) ELSE Good([x EXCEPT !.bid = Put2(@, e.p, [b |-> <<>>, r |-> <<>>])]))
     ELSE IF Len(e.caps) # 1 \/ Len(e.caps[1]) # 1 \/ ~Close(e.caps[1][1], lim) THEN Bad(x, <<"bid-capacity", e, lim>>)
     ELSE IF \E i \in DOMAIN e.bids : e.bids[i].r \notin DOMAIN e.reqs THEN Bad(x, <<"bid-on-nothing", e>>)
     ELSE IF \E i \in DOMAIN e.reqs : BadReq(i) THEN Bad(x, <<"bids", e, s, lim, {<<i, Offers(x, s, Min2(e.reqs[i].q, lim))>> : i \in {j \in DOMAIN e.reqs : BadReq(j)}}>>)
     ELSE NoRows([x EXCEPT !.bid = Put2(@, e.p, [b |-> e.bids, r |-> e.reqs])], e)

OpShip(x, e) ==
  IF ~Member(e.p, x.sl) THEN Good(x)
  ELSE
  LET s == x.sl[e.p]
      B == x.bid[e.p]
      pk == PkgOf(x, s.pkg)
      free == pk.min = 0 /\ pk.max >= Inf
      n == Len(e.trades)
      may == Ships(TuOf(x, s.tu), n)
      tot == SumSeq([i \in DOMAIN e.sent |-> e.sent[i].q])
      ReqOf(i) == B.r[B.b[e.trades[i].b].r]
      BadSent(j) ==
        LET z == e.sent[j]  i == z.i IN
        \/ i \notin DOMAIN e.trades
        \/ ~Close(z.amt, e.trades[i].q)
        \/ (IF Random(pk) THEN z.q > e.trades[i].q + 1
            ELSE IF free \/ FitsPkg(pk, e.trades[i].q, 0) THEN ~Close(z.q, e.trades[i].q)
            ELSE IF FitsPkg(pk, e.trades[i].q, 1) THEN ~Close(z.q, e.trades[i].q) /\ z.q # 0
            ELSE z.q # 0)
        \/ z.q > 1 /\ (z.pkg # s.pkg \/ (~free /\ ~FitsPkg(pk, z.q, 1)))
        \/ z.q > 1 /\ z.comp # (IF s.ign THEN ReqOf(i).comp ELSE x.bf[s.b].comp)
      shipped == Cardinality({j \in DOMAIN e.sent : e.sent[j].q > 1})
  IN IF e.res # "ok" THEN Bad(x, <<"shipment-failed", e, s>>)
     ELSE IF \E j \in DOMAIN e.sent : BadSent(j) THEN Bad(x, <<"shipment", e, s, B>>)
     ELSE IF shipped > may THEN Bad(x, <<"more-than-transportable", e, may>>)
     ELSE IF Len(e.sent) < Min2(n, may) THEN Bad(x, <<"not-shipped", e, may>>)
     ELSE IF ~Near(x.bf[s.b].q, tot + e.bufs[s.b], 1 + Len(e.sent)) THEN Bad(x, <<"not-conserved", e, x.bf>>)
     ELSE IF \E i \in DOMAIN x.bf : i # s.b /\ ~Close(x.bf[i].q, e.bufs[i]) THEN Bad(x, <<"other-buffer-changed", e, x.bf>>)
     ELSE IF e.rows # <<>> THEN Bad(x, <<"unexpected-period", e>>)
     ELSE Good(Sync(x, e))

Apply(x, e) ==
  CASE e.op = "pkg" -> Good([x EXCEPT !.pkgs = Put2(@, e.name, [name |-> e.name, min |-> e.min, max |-> e.max, strat |-> e.strat])])
    [] e.op = "tu" -> Good([x EXCEPT !.tus = Put2(@, e.name, [name |-> e.name, min |-> e.min, max |-> e.max, strat |-> e.strat])])
    [] e.op = "buf" -> Ended([x EXCEPT !.bf = Append(@, [q |-> 0, cap |-> e.cap, comp |-> ""])], e, "buffers")
    [] e.op = "trk" -> Good([x EXCEPT !.tk = Append(@, [cap |-> e.cap, b |-> e.b])])
    [] e.op = "buy" -> OpBuy(x, e)
    [] e.op = "reset" -> Good(IF Member(e.p, x.by) THEN [x EXCEPT !.by[e.p] = [B0 EXCEPT !.b = x.by[e.p].b, !.k = x.by[e.p].k, !.com = x.by[e.p].com]] ELSE x)
    [] e.op = "set" -> Good(IF Member(e.p, x.by) THEN [x EXCEPT !.by[e.p].com = Put2(@, e.c, [comp |-> e.comp, pref |-> e.pref])] ELSE x)
    [] e.op = "unset" -> Good(IF Member(e.p, x.by) THEN [x EXCEPT !.by[e.p].com = [c \in DOMAIN @ \ {e.c} |-> @[c]]] ELSE x)
    [] e.op = "start" -> IF e.on /\ e.res = "ok" THEN Good(x) ELSE Bad(x, <<"not-started", e>>)
    [] e.op = "stop" -> IF ~e.on /\ e.res = "ok" THEN Good(x) ELSE Bad(x, <<"not-stopped", e>>)
    [] e.op = "ask" -> OpAsk(x, e)
    [] e.op = "fill" -> OpFill(x, e)
    [] e.op = "put" -> Ended([x EXCEPT !.bf[e.b].q = @ + e.q, !.bf[e.b].comp = e.comp], e, "buffers")
    [] e.op = "take" -> Ended([x EXCEPT !.bf[e.b].q = @ - e.q], e, "buffers")
    [] e.op = "sell" -> OpSell(x, e)
    [] e.op = "sset" -> Good(IF Member(e.p, x.sl) THEN [x EXCEPT !.sl[e.p].com = @ \cup {e.c}] ELSE x)
    [] e.op = "bid" -> OpBid(x, e)
    [] e.op = "ship" -> OpShip(x, e)
    [] e.op = "next" -> IF e.t # x.t THEN Bad(x, <<"time", e>>) ELSE Ended([x EXCEPT !.t = @ + 1, !.bid = <<>>], e, "buffers")
    [] e.op = "end" -> IF e.res = "ok" THEN Good([x EXCEPT !.done = TRUE]) ELSE Bad(x, <<"ended", e>>)
    [] e.op = "crash" -> Bad(x, <<"crash", e>>)

Init == h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
Next ==
  /\ err = <<>>
  /\ \/ /\ l < Len(Hist[h].ev)
        /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN k' = r.k /\ err' = r.err
        /\ l' = l + 1
     \/ /\ l = Len(Hist[h].ev)
        /\ ~k.done
        /\ err' = <<"did-not-finish">>
        /\ UNCHANGED <<k, l>>
  /\ h' = h
TraceSpec == Init /\ [][Next]_vars
Accepted == err = <<>>
=============================================================================
