--------------------------- MODULE ExchangeTrace ----------------------------
(* Recorded executions of the real exchange, checked against Exchange.      *)
EXTENDS Exchange, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>

Good(x) == [k |-> x, err |-> <<>>]
Bad(x, why) == [k |-> x, err |-> why]
Chk(c, x, why) == IF c THEN Good(x) ELSE Bad(x, why)

(* k.D declaration, k.r index of the current round, k.ph phase within it *)
K0 == [D |-> <<>>, r |-> 1, ph |-> "none", owe |-> <<>>, oset |-> {}, chain |-> <<>>, prefs |-> <<>>,
       g |-> <<>>, sol |-> <<>>, m |-> <<>>, resp |-> <<>>, nrow |-> 0, rows |-> {}, done |-> FALSE, prev |-> <<>>]

T(x) == x.D.rounds[x.r][1]
Y(x) == x.D.rounds[x.r][2]
RECURSIVE SortSet(_)
SortSet(A) == IF A = {} THEN <<>> ELSE LET m == MinOf(A) IN <<m>> \o SortSet(A \ {m})

StartRound(x) ==
  IF x.r > Len(x.D.rounds) THEN [x EXCEPT !.ph = "over"]
  ELSE [x EXCEPT !.ph = "req", !.owe = SortSet(Traders(x.D)), !.oset = {}, !.chain = <<>>, !.prefs = <<>>,
                 !.g = <<>>, !.sol = <<>>, !.m = <<>>, !.resp = <<>>, !.rows = {}, !.prev = <<>>]
NextRound(x) == StartRound([x EXCEPT !.r = @ + 1])

(* preferences as collected: bid id -> value *)
Prefs0(x) == [id \in {BidRec(x.D, b).id : b \in BidsOf(x.D, T(x), Y(x))} |->
                BidPref0(x.D, T(x), Y(x), BidRec(x.D, BidOf(x.D, T(x), Y(x), id)))]
NoBids(x) == BidsOf(x.D, T(x), Y(x)) = {}
ZeroPref(x) == \E b \in DOMAIN x.prefs : x.prefs[b] = 0

(* phases that owe nothing more are left silently *)
RECURSIVE Settle(_)
Settle(x) ==
  IF x.ph = "req" /\ x.owe = <<>> THEN Settle([x EXCEPT !.ph = "bid", !.owe = SortSet(Traders(x.D))])
  ELSE IF x.ph = "bid" /\ x.owe = <<>>
       THEN Settle([x EXCEPT !.ph = "adj", !.oset = Requesters(x.D, T(x), Y(x)), !.prefs = Prefs0(x)])
  ELSE IF x.ph = "adj" /\ x.oset = {} /\ x.chain = <<>>
       THEN Settle([x EXCEPT !.ph = IF NoBids(x) THEN "end" ELSE IF ZeroPref(x) THEN "fail"
                                    ELSE IF x.D.mode = "man" THEN "graph" ELSE "give"])
  ELSE IF x.ph = "end" /\ x.D.mode # "man" THEN Settle(NextRound(x))
  ELSE x

(* ---- collecting ---- *)
AskReq(x0, e) ==
  LET x == Settle(x0) IN
  Chk(x.ph = "req" /\ e.t = T(x) /\ e.ty = Y(x) /\ x.owe # <<>> /\ Head(x.owe) = e.a,
      [x EXCEPT !.owe = Tail(@)], <<"request-collection", e, x.ph, x.owe>>)

AskBid(x0, e) ==
  LET x == Settle(x0)
      want == {<<ReqRec(x.D, r).c, ReqRec(x.D, r).id>> : r \in Reqs(x.D, T(x), Y(x))}
  IN IF ~(x.ph = "bid" /\ e.t = T(x) /\ e.ty = Y(x) /\ x.owe # <<>> /\ Head(x.owe) = e.a)
     THEN Bad(x, <<"bid-collection", e, x.ph, x.owe>>)
     ELSE Chk({<<e.seen[i][1], e.seen[i][2]>> : i \in DOMAIN e.seen} = want /\ Len(e.seen) = Cardinality(want),
              [x EXCEPT !.owe = Tail(@)], <<"requests-shown-to-bidder", e, want>>)

PrefSeen(x, a) == {<<BidRec(x.D, b).rq, BidRec(x.D, b).id, x.prefs[BidRec(x.D, b).id]>> :
                     b \in {c \in BidsOf(x.D, T(x), Y(x)) :
                              x.D.rp[ReqOf(x.D, T(x), Y(x), BidRec(x.D, c).rq)[1]].a = a}}
RECURSIVE ApplyChg(_, _)
ApplyChg(p, c) == IF c = <<>> THEN p ELSE ApplyChg([p EXCEPT ![Head(c)[2]] = Head(c)[3]], Tail(c))
Adj(x0, e) ==
  LET x == Settle(x0) IN
  IF ~(x.ph = "adj" /\ e.t = T(x) /\ e.ty = Y(x)) THEN Bad(x, <<"adjustment-out-of-place", e, x.ph, x.owe>>)
  ELSE LET start == x.chain = <<>>
           ok == IF start THEN e.a \in x.oset ELSE Head(x.chain)[2] = e.a
           who == IF start THEN e.a ELSE Head(x.chain)[1]
           anc == Ancestors(x.D, who)
           chain == IF start THEN [i \in 1..Len(anc) |-> <<who, anc[i]>>] ELSE Tail(x.chain)
           seen == {<<e.prefs[i][1], e.prefs[i][2], e.prefs[i][3]>> : i \in DOMAIN e.prefs}
       IN IF ~ok THEN Bad(x, <<"adjustment-by-wrong-agent", e, x.oset, x.chain>>)
          ELSE Chk(seen = PrefSeen(x, who), [x EXCEPT !.chain = chain, !.oset = IF start THEN @ \ {e.a} ELSE @,
                                                      !.prefs = ApplyChg(@, e.chg)],
                   <<"preferences-shown", e, PrefSeen(x, who)>>)

(* ---- translation ---- *)
Pairs(a, b) == [i \in 1..Len(a) |-> <<a[i], b[i]>>]
NearBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in DOMAIN s : Cardinality({j \in DOMAIN s : s[j] = s[i]}) <=
                      Cardinality({j \in DOMAIN t : Abs(t[j][1] - s[i][1]) <= 2 /\ Abs(t[j][2] - s[i][2]) <= 2})
                 /\ \A i \in DOMAIN t : \E j \in DOMAIN s : Abs(t[i][1] - s[j][1]) <= 2 /\ Abs(t[i][2] - s[j][2]) <= 2

WantRNode(p, r) == [id |-> r.id, q |-> r.q, ex |-> r.ex, c |-> r.c, a |-> p.a]
WantBNode(x, p, b) == [id |-> b.id, q |-> b.q, ex |-> b.ex,
                       c |-> ReqRec(x.D, ReqOf(x.D, T(x), Y(x), b.rq)).c, a |-> p.a]
BidSeq(x, p) == SelectSeq(p.bd, LAMBDA b : b.rq \in ReqIds(x.D, T(x), Y(x)))
WantEg(x, p) == LET q == BidSeq(x, p)
                    E == {i \in DOMAIN q : q[i].ex} IN
                {IF q[i].sh = 0 THEN {q[i].id} ELSE {q[j].id : j \in {m \in E : q[m].sh = q[i].sh}} : i \in E}
WantArcs(x) == {b \in BidsOf(x.D, T(x), Y(x)) : x.prefs[BidRec(x.D, b).id] > 0}

ReqGroupOk(x, i, e) ==
  LET p == x.D.rp[i] IN
  \E j \in DOMAIN e.rg :
     LET G == e.rg[j] IN
     /\ Rng(G.n) = {WantRNode(p, p.rq[m]) : m \in DOMAIN p.rq} /\ Len(G.n) = Len(p.rq)
     /\ Abs(G.q - PortQty(p)) <= 2
     /\ NearBag(Pairs([m \in 1..Len(p.cn) |-> p.cn[m].cap] \o <<PortQty(p)>>, [m \in 1..(Len(p.cn) + 1) |-> 0]),
                Pairs(G.caps, [m \in 1..Len(G.caps) |-> 0]))
     /\ {Rng(G.eg[m]) : m \in DOMAIN G.eg} = {{p.rq[m].id} : m \in {n \in DOMAIN p.rq : p.rq[n].ex}}
BidGroupOk(x, i, e) ==
  LET p == x.D.bp[i]  q == BidSeq(x, p) IN
  \E j \in DOMAIN e.sg :
     LET G == e.sg[j] IN
     /\ Rng(G.n) = {WantBNode(x, p, q[m]) : m \in DOMAIN q} /\ Len(G.n) = Len(q)
     /\ NearBag(Pairs([m \in 1..Len(p.cn) |-> p.cn[m].cap], [m \in 1..Len(p.cn) |-> 0]),
                Pairs(G.caps, [m \in 1..Len(G.caps) |-> 0]))
     /\ {Rng(G.eg[m]) : m \in DOMAIN G.eg} = WantEg(x, p)
ArcOk(x, b, e) ==
  LET B == BidRec(x.D, b)
      R == ReqOf(x.D, T(x), Y(x), B.rq)
      rp == x.D.rp[R[1]]
      r == ReqRec(x.D, R)
      bp == x.D.bp[b[1]]
  IN \E j \in DOMAIN e.arcs :
       LET A == e.arcs[j] IN
       /\ A.r = r.id /\ A.b = B.id
       /\ A.p = x.prefs[B.id] /\ A.np = A.p
       /\ A.ex = (r.ex \/ B.ex) /\ A.ev = ExclVal(r, B)
       /\ NearBag(Pairs([m \in 1..Len(bp.cn) |-> bp.cn[m].cap], [m \in 1..Len(bp.cn) |-> CnCoef(bp.cn[m], B)]),
                  Pairs(e.sg[SGof(e, B.id)].caps, A.uv))
       /\ NearBag(Pairs([m \in 1..Len(rp.cn) |-> rp.cn[m].cap] \o <<PortQty(rp)>>,
                        [m \in 1..Len(rp.cn) |-> CnCoef(rp.cn[m], B)] \o <<ReqCoef(rp, r)>>),
                  Pairs(e.rg[RGof(e, r.id)].caps, A.uu))
Graph(x0, e) ==
  LET x == Settle(x0) IN
  IF x.ph # "graph" THEN Bad(x, <<"graph-out-of-place", x.ph>>)
  ELSE IF ~(Len(e.rg) = Cardinality(RPs(x.D, T(x), Y(x))) /\ \A i \in RPs(x.D, T(x), Y(x)) : ReqGroupOk(x, i, e))
       THEN Bad(x, <<"request-portfolio-translation", e.rg>>)
  ELSE IF ~(Len(e.sg) = Cardinality(BPs(x.D, T(x), Y(x))) /\ \A i \in BPs(x.D, T(x), Y(x)) : BidGroupOk(x, i, e))
       THEN Bad(x, <<"bid-portfolio-translation", e.sg>>)
  ELSE IF ~(Len(e.arcs) = Cardinality(WantArcs(x)) /\ \A b \in WantArcs(x) : ArcOk(x, b, e))
       THEN Bad(x, <<"arc-translation", e.arcs, {BidRec(x.D, b).id : b \in WantArcs(x)}>>)
  ELSE Good([x EXCEPT !.ph = "solve", !.g = [rg |-> e.rg, sg |-> e.sg, arcs |-> e.arcs]])

(* ---- solving ---- *)
ArcIx(g, r, b) == CHOOSE a \in DOMAIN g.arcs : g.arcs[a].r = r /\ g.arcs[a].b = b
IsArc(g, r, b) == \E a \in DOMAIN g.arcs : g.arcs[a].r = r /\ g.arcs[a].b = b
RECURSIVE GreedyRun(_, _, _, _)
(* replay the matches in order; returns <<ok, position>> *)
GreedyRun(g, W, f, m) ==
  IF m = <<>> THEN [ok |-> GreedyDone(g, f), f |-> f, at |-> <<"unserved", {g.arcs[b].b : b \in {a \in DOMAIN g.arcs : f[a] = 0 /\ Avail(g, f, a) > Tol}}>>]
  ELSE LET a == ArcIx(g, Head(m)[1], Head(m)[2]) IN
       IF ~GreedyMay(g, W, f, a) THEN [ok |-> FALSE, f |-> f, at |-> <<"out of turn", Head(m), Avail(g, f, a)>>]
       ELSE IF ~Near(Avail(g, f, a), Head(m)[3]) THEN [ok |-> FALSE, f |-> f, at |-> <<"quantity", Head(m), Avail(g, f, a)>>]
       ELSE GreedyRun(g, W, [f EXCEPT ![a] = Head(m)[3]], Tail(m))

MatchFlow(g, m) == [a \in DOMAIN g.arcs |->
   LET I == {i \in DOMAIN m : m[i][1] = g.arcs[a].r /\ m[i][2] = g.arcs[a].b} IN
   SumSet(I, [i \in I |-> m[i][3]])]

RevW(W, rev) == IF ~rev \/ W = <<>> THEN W
                ELSE LET V == {W[i].w : i \in DOMAIN W} IN
                     [i \in DOMAIN W |-> [W[i] EXCEPT !.w = MaxOf(V) + MinOf(V) - @]]

SolveOk(x, g, e) ==
  LET m == e.m
      f == MatchFlow(g, m)
      greedy == e.solver \in {"greedy", "greedy0"}
      W == IF e.solver = "greedy" THEN RevW(x.D.wgt, x.D.rev) ELSE <<>>
  IN IF \E i \in DOMAIN m : ~IsArc(g, m[i][1], m[i][2]) THEN <<"match-without-arc", m>>
     ELSE IF \E i, j \in DOMAIN m : i # j /\ m[i][1] = m[j][1] /\ m[i][2] = m[j][2] THEN <<"arc-matched-twice", m>>
     ELSE IF ~SupplyFeasible(g, f) THEN <<"supply-exceeded", m>>
     ELSE IF (greedy \/ e.excl) /\ ~ExclFeasible(g, f) THEN <<"exclusive-order-split", m>>
     ELSE IF greedy /\ ~DemandFeasible(g, f) THEN <<"demand-exceeded", m>>
     ELSE IF ~greedy /\ e.excl /\ ~OfferFeasible(g, f) THEN <<"exclusive-offer-sold-twice", m>>
     ELSE IF greedy /\ ~GreedyRun(g, W, NoFlow(g), m).ok THEN <<"greedy", GreedyRun(g, W, NoFlow(g), m).at, m>>
     ELSE <<>>

(* how large an exchange is compared with every other set of trades *)
OptArcs == IF "OPT" \in DOMAIN IOEnv THEN 6 ELSE 0
Solve(x, e) ==
  IF x.ph # "solve" \/ (e.use <=> x.prev # <<>>) THEN Bad(x, <<"solve-out-of-place", x.ph>>)
  ELSE LET why == SolveOk(x, x.g, e) IN
       IF why # <<>> THEN Bad(x, why)
       ELSE IF e.use /\ Len(x.g.arcs) > 0 /\ Len(x.g.arcs) <= OptArcs /\ x.D.solver # "greedy" /\ ~Best(x.g, MatchFlow(x.g, e.m), e.excl)
            THEN Bad(x, <<"not-the-best", e.m>>)
       ELSE IF e.use THEN Good([x EXCEPT !.m = e.m, !.prev = <<"done">>,
                                        !.ph = IF x.D.solver = "greedy" THEN "give" ELSE @])
       ELSE (* the optimising solver is never worse than the greedy one *)
            LET cp == SolCost(x.g, MatchFlow(x.g, x.m), e.excl)
                cg == SolCost(x.g, MatchFlow(x.g, e.m), e.excl)
            IN Chk(SharedExcl(x.g) \/ cp <= cg + cg \div 200 + 2 * Unit * Tol, [x EXCEPT !.ph = "give"],
                   <<"worse-than-greedy", cp, cg, x.m, e.m>>)

(* ---- executing ---- *)
(* mode "mgr": the matches are learnt from what suppliers are asked for.    *)
(* the graph is then the declared one                                       *)
DeclGraph(x) ==
  LET rs == SortSet(RPs(x.D, T(x), Y(x)))
      bs == SortSet(BPs(x.D, T(x), Y(x)))
      arcs == WantArcs(x)
      RECURSIVE ArcSeq(_)
      ArcSeq(A) == IF A = {} THEN <<>> ELSE
        LET b == CHOOSE b \in A : TRUE
            B == BidRec(x.D, b)
            R == ReqOf(x.D, T(x), Y(x), B.rq)
            rp == x.D.rp[R[1]]
            r == ReqRec(x.D, R)
            bp == x.D.bp[b[1]]
        IN <<[r |-> r.id, b |-> B.id, p |-> x.prefs[B.id], ex |-> r.ex \/ B.ex, ev |-> ExclVal(r, B),
              uv |-> [m \in 1..Len(bp.cn) |-> CnCoef(bp.cn[m], B)],
              uu |-> [m \in 1..Len(rp.cn) |-> CnCoef(rp.cn[m], B)] \o <<ReqCoef(rp, r)>>]>> \o ArcSeq(A \ {b})
  IN [rg |-> [i \in 1..Len(rs) |-> LET p == x.D.rp[rs[i]] IN
                [q |-> PortQty(p), n |-> [m \in 1..Len(p.rq) |-> WantRNode(p, p.rq[m])],
                 caps |-> [m \in 1..Len(p.cn) |-> p.cn[m].cap] \o <<PortQty(p)>>]],
      sg |-> [i \in 1..Len(bs) |-> LET p == x.D.bp[bs[i]]  q == BidSeq(x, p) IN
                [n |-> [m \in 1..Len(q) |-> WantBNode(x, p, q[m])],
                 caps |-> [m \in 1..Len(p.cn) |-> p.cn[m].cap], eg |-> <<>>]],
      arcs |-> ArcSeq(arcs)]

BidderOf(x, b) == x.D.bp[BidOf(x.D, T(x), Y(x), b)[1]].a
RequesterOf(x, r) == x.D.rp[ReqOf(x.D, T(x), Y(x), r)[1]].a

(* greedy outcome without the order of matches: feasible and maximal *)
MgrOk(x, m) ==
  LET g == DeclGraph(x)
      f == MatchFlow(g, m)
  IN IF \E i \in DOMAIN m : ~IsArc(g, m[i][1], m[i][2]) THEN <<"match-without-arc", m>>
     ELSE IF \E i, j \in DOMAIN m : i # j /\ m[i][1] = m[j][1] /\ m[i][2] = m[j][2] THEN <<"arc-matched-twice", m>>
     ELSE IF ~SupplyFeasible(g, f) THEN <<"supply-exceeded", m>>
     ELSE IF ~ExclFeasible(g, f) THEN <<"exclusive-order-split", m>>
     ELSE IF ~DemandFeasible(g, f) THEN <<"demand-exceeded", m>>
     ELSE IF ~GreedyDone(g, f) THEN <<"trades-left-unmade", m>>
     ELSE <<>>

Give(x0, e) ==
  LET x == Settle(x0) IN
  IF ~(x.ph = "give" /\ e.t = T(x) /\ e.ty = Y(x)) THEN Bad(x, <<"supplier-call-out-of-place", e, x.ph>>)
  ELSE IF e.a \in x.oset THEN Bad(x, <<"supplier-called-twice", e>>)
  ELSE IF Len(e.tr) = 0 \/ \E i \in DOMAIN e.tr : BidderOf(x, e.tr[i][2]) # e.a \/ BidRec(x.D, BidOf(x.D, T(x), Y(x), e.tr[i][2])).rq # e.tr[i][1]
       THEN Bad(x, <<"trade-sent-to-wrong-supplier", e>>)
  ELSE LET tr == {<<e.tr[i][1], e.tr[i][2], e.tr[i][3]>> : i \in DOMAIN e.tr}
           y == [x EXCEPT !.oset = @ \cup {e.a}, !.resp = @ \o e.tr]
       IN IF x.D.mode = "man"
          THEN Chk(Len(e.tr) = Cardinality(tr) /\ tr = {<<x.m[i][1], x.m[i][2], x.m[i][3]>> : i \in {j \in DOMAIN x.m : BidderOf(x, x.m[j][2]) = e.a}},
                   y, <<"supplier-trades", e, x.m>>)
          ELSE Good([y EXCEPT !.m = @ \o [i \in 1..Len(e.tr) |-> <<e.tr[i][1], e.tr[i][2], e.tr[i][3]>>]])

Sent(x) == {x.resp[i] : i \in {j \in DOMAIN x.resp : x.resp[j][4] >= 0}}
RowOwed(x) == {<<BidderOf(x, s[2]), RequesterOf(x, s[1]), s[4], ReqRec(x.D, ReqOf(x.D, T(x), Y(x), s[1])).c>>
                 : s \in {u \in Sent(x) : u[5] > 0}}
(* all suppliers have answered: rows and deliveries are owed *)
ToRows(x) ==
  IF x.ph # "give" THEN Good(x)
  ELSE LET why == IF x.D.mode = "man" THEN
                     (IF x.oset = {BidderOf(x, x.m[i][2]) : i \in DOMAIN x.m} THEN <<>> ELSE <<"supplier-not-called", x.oset, x.m>>)
                  ELSE IF x.D.solver = "greedy" THEN MgrOk(x, x.m) ELSE <<>>
           y == [x EXCEPT !.ph = "rows", !.rows = RowOwed(x), !.oset = {RequesterOf(x, x.m[i][1]) : i \in DOMAIN x.m}]
       IN IF why # <<>> THEN Bad(x, why)
          ELSE Good(y)

Row(x0, e) ==
  LET r == ToRows(Settle(x0))  x == r.k IN
  IF r.err # <<>> THEN r
  ELSE IF x.ph # "rows" THEN Bad(x, <<"transaction-row-out-of-place", e, x.ph>>)
  ELSE LET w == <<e.snd, e.rcv, e.rid, e.c>> IN
       Chk(w \in x.rows /\ e.t = T(x) /\ e.id = x.nrow, [x EXCEPT !.rows = @ \ {w}, !.nrow = @ + 1],
           <<"transaction-row", e, x.rows, x.nrow>>)

Take(x0, e) ==
  LET r == ToRows(Settle(x0))  x == r.k IN
  IF r.err # <<>> THEN r
  ELSE IF ~(x.ph = "rows" /\ x.rows = {}) THEN Bad(x, <<"delivery-before-record", e, x.ph, x.rows>>)
  ELSE IF e.a \notin x.oset \/ e.t # T(x) \/ e.ty # Y(x) THEN Bad(x, <<"delivery-to-wrong-trader", e, x.oset>>)
  ELSE LET got == {<<e.tr[i][1], e.tr[i][2], e.tr[i][3], e.tr[i][4], e.tr[i][5]>> : i \in DOMAIN e.tr}
           want == {<<s[1], s[2], s[3], s[4], s[5]>> : s \in {u \in Sent(x) : RequesterOf(x, u[1]) = e.a}}
           y == [x EXCEPT !.oset = @ \ {e.a}]
       IN Chk(got = want /\ Len(e.tr) = Cardinality(got),
              IF y.oset = {} THEN [y EXCEPT !.ph = "end"] ELSE y,
              <<"delivery", e, want>>)

(* rounds in which no trade could be made end without any call *)
Quiet(x0) ==
  LET x == Settle(x0) IN
  IF x.ph = "give" /\ x.m = <<>> THEN
     LET r == ToRows(x) IN IF r.err # <<>> THEN r ELSE Good([r.k EXCEPT !.ph = "end"])
  ELSE Good(x)

RECURSIVE QuietAll(_)
QuietAll(x0) ==
  LET r == Quiet(x0) IN
  IF r.err # <<>> THEN r
  ELSE IF r.k.ph = "end" /\ r.k.D.mode # "man" THEN QuietAll(NextRound(r.k))
  ELSE IF r.k.ph \in {"req"} /\ r.k.owe = <<>> THEN QuietAll(Settle(r.k))
  ELSE r

Done(x0, e) ==
  LET r == Quiet(x0)  x == r.k IN
  IF r.err # <<>> THEN r
  ELSE IF e.res # "ok" THEN Chk(x.ph = "fail" /\ e.res = "value", NextRound(x), <<"exchange-aborted", e, x.ph>>)
  ELSE Chk(x.ph = "end" /\ e.t = T(x) /\ e.ty = Y(x), NextRound(x), <<"exchange-unfinished", e, x.ph, x.owe, x.oset, x.rows>>)

End(x0, e) ==
  LET r == QuietAll(x0)  x == r.k IN
  IF r.err # <<>> THEN r
  ELSE IF e.res # "ok" THEN Chk(x.ph = "fail" /\ e.res = "value", [x EXCEPT !.done = TRUE], <<"run-aborted", e, x.ph>>)
  ELSE Chk(x.ph = "over", [x EXCEPT !.done = TRUE], <<"run-ended-early", e, x.ph, x.r, x.owe, x.oset, x.rows>>)

Apply(x, e) ==
  CASE e.op = "decl" -> Good(StartRound([x EXCEPT !.D = e]))
    [] e.op = "ask_req" -> LET r == QuietAll(x) IN IF r.err # <<>> THEN r ELSE AskReq(r.k, e)
    [] e.op = "ask_bid" -> AskBid(x, e)
    [] e.op = "adj" -> Adj(x, e)
    [] e.op = "graph" -> Graph(x, e)
    [] e.op = "solve" -> Solve(x, e)
    [] e.op = "give" -> Give(x, e)
    [] e.op = "row" -> Row(x, e)
    [] e.op = "take" -> Take(x, e)
    [] e.op = "done" -> Done(x, e)
    [] e.op = "end" -> End(x, e)
    [] OTHER -> Bad(x, <<"unexplained", e>>)

TraceInit == /\ h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
TraceNext ==
  /\ err = <<>>
  /\ l < Len(Hist[h].ev)
  /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN
       /\ k' = r.k
       /\ err' = IF r.err = <<>> /\ l + 1 = Len(Hist[h].ev) /\ ~r.k.done
                 THEN <<"history-incomplete", r.k.ph>> ELSE r.err
  /\ l' = l + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
