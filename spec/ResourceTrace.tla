--------------------------- MODULE ResourceTrace ----------------------------
(* Recorded executions of the real resource classes, replayed through       *)
(* Resource.  sm and qm map the model's state and composition names to the  *)
(* identifiers the implementation chose.                                    *)
EXTENDS Resource, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>

K0 == [x |-> X0, sm |-> (0 :> 0), qm |-> (0 :> 0), fr |-> <<>>, pq |-> <<>>, bo |-> <<>>, to |-> <<>>, done |-> FALSE]
Good(y) == [k |-> y, err |-> <<>>]
Bad(y, why) == [k |-> y, err |-> why]

Img(f) == {f[a] : a \in DOMAIN f}
Has(e, f) == f \in DOMAIN e
ObsOf(e, o) == LET S == {i \in DOMAIN e.obs : e.obs[i].o = o} IN
               IF S = {} THEN <<>> ELSE <<e.obs[CHOOSE i \in S : TRUE]>>
(* model name of the composition the implementation calls q *)
QualName(s, q) == CHOOSE n \in DOMAIN s.qm : s.qm[n] = q /\ n # 0
KnownQual(s, q) == \E n \in DOMAIN s.qm : s.qm[n] = q /\ n # 0

(* is anything left of a after taking q? *)
LeftF(x, e, a, q, fuzz) ==
  LET d == x.ob[a].q - q
      w == ObsOf(e, a)
  IN IF d > fuzz THEN TRUE ELSE IF w = <<>> THEN FALSE ELSE w[1].pos

Left(x, e, a, q) == LeftF(x, e, a, q, 1)

(* ---- matching recorded rows ---- *)
FracOk(f, m, q, slack) == \/ q <= 5
                          \/ \A i \in Nucs : Abs(f[i] * q - m[i] * 10000) <= slack * 10000 + 2 * q
RowOk(s, e, r, a, slack, loose) ==
  /\ a.ty = (IF r.ty = "M" THEN "Material" ELSE "Product")
  /\ a.un = (IF r.ty = "M" THEN "kg" ELSE "NONE")
  /\ a.t = r.t
  /\ Near(a.q, r.q, slack)
  /\ a.pkg = r.pkg
  /\ a.st \notin Img(s.sm)
  /\ IF r.ty = "M"
     THEN /\ Len(a.pdt) = 1
          /\ loose \/ a.pdt[1] = r.pdt
          /\ r.qual \in DOMAIN s.qm => s.qm[r.qual] = a.qual
          /\ a.qual \in DOMAIN s.fr
          /\ FracOk(s.fr[a.qual], r.m, r.q, slack)
     ELSE Len(a.pdt) = 0 /\ r.ql \in DOMAIN s.pq /\ a.qual = s.pq[r.ql]

MatchRow(acc, e, r, slack, loose) ==
  IF acc.err # <<>> THEN acc
  ELSE LET s == acc.k
           C == {i \in acc.rows : e.rows[i].o = r.o /\ e.rows[i].p1 = s.sm[r.p1] /\ e.rows[i].p2 = s.sm[r.p2]}
       IN IF C = {} THEN [acc EXCEPT !.err = <<"row-missing", r, e.rows>>]
          ELSE LET i == CHOOSE i \in C : \A j \in C : i <= j
                   a == e.rows[i]
               IN IF ~RowOk(s, e, r, a, slack, loose) THEN [acc EXCEPT !.err = <<"row-differs", r, a, s.qm, s.fr>>]
                  ELSE [acc EXCEPT !.k.sm = (r.st :> a.st) @@ @,
                                   !.k.qm = IF r.ty = "M" /\ r.qual \notin DOMAIN @ THEN (r.qual :> a.qual) @@ @ ELSE @,
                                   !.rows = @ \ {i}]
MatchRows(s, e, out, slack, loose) ==
  LET z == FoldLeft(LAMBDA acc, r : MatchRow(acc, e, r, slack, loose), [k |-> s, err |-> <<>>, rows |-> DOMAIN e.rows], out)
  IN IF z.err # <<>> THEN Bad(z.k, z.err)
     ELSE IF z.rows # {} THEN Bad(z.k, <<"unexplained-row", {e.rows[i] : i \in z.rows}>>)
     ELSE Good(z.k)

(* compositions recorded in this operation: once each, normalised *)
AddComp(acc, c) ==
  IF acc.err # <<>> THEN acc
  ELSE LET F(i) == LET S == {j \in DOMAIN c.f : c.f[j][1] = i} IN IF S = {} THEN 0 ELSE c.f[CHOOSE j \in S : TRUE][2]
           f == [i \in Nucs |-> F(i)]
       IN IF \/ c.qual \in DOMAIN acc.k.fr
             \/ \E j \in DOMAIN c.f : c.f[j][1] \notin Nucs
             \/ Cardinality({c.f[j][1] : j \in DOMAIN c.f}) # Len(c.f)
             \/ ~(Near(Sum3(f), 10000, 3) \/ Sum3(f) = 0)
          THEN Bad(acc.k, <<"composition-rows", c, acc.k.fr>>)
          ELSE [acc EXCEPT !.k.fr = (c.qual :> f) @@ @]
AddComps(s, cs) == FoldLeft(AddComp, Good(s), cs)

AddProd(acc, p) ==
  IF acc.err # <<>> THEN acc
  ELSE IF p.quality \in DOMAIN acc.k.pq \/ p.qual \in Img(acc.k.pq) THEN Bad(acc.k, <<"product-quality-row", p, acc.k.pq>>)
  ELSE [acc EXCEPT !.k.pq = (p.quality :> p.qual) @@ @]
AddProds(s, ps) == FoldLeft(AddProd, Good(s), ps)

(* ---- matching observed objects ---- *)
ObsOk(s, y, w, slack, loose) ==
  LET r == y.ob[w.o] IN
  /\ w.ty = (IF r.ty = "M" THEN "Material" ELSE "Product")
  /\ Near(w.q, r.q, slack) /\ \A i \in Nucs : Near(w.m[i], r.m[i], slack)
  /\ w.pkg = r.pkg /\ w.ql = r.ql
  /\ IF r.st \in DOMAIN s.sm THEN w.st = s.sm[r.st] ELSE w.st \notin Img(s.sm)
  /\ r.ty = "M" => /\ (r.qual \in DOMAIN s.qm => w.qual = s.qm[r.qual])
                   /\ (loose \/ w.pdt = r.pdt)

Settle(s, y, e, slack, loose) ==
  (* s has sm/qm/fr/pq up to date for the rows; y is the model after the operation *)
  LET seen == {e.obs[i].o : i \in DOMAIN e.obs}
      slots == DOMAIN y.ob \ {0}
      bad == {i \in DOMAIN e.obs : e.obs[i].o \notin slots \/ ~ObsOk(s, y, e.obs[i], slack, loose)}
      quiet == {o \in slots \ seen :
                  \/ o \notin DOMAIN s.x.ob
                  \/ LET p == s.x.ob[o]  r == y.ob[o] IN
                     ~(Near(p.q, r.q, slack) /\ p.pkg = r.pkg /\ p.st = r.st /\ p.qual = r.qual
                       /\ (loose \/ p.pdt = r.pdt) /\ \A i \in Nucs : Near(p.m[i], r.m[i], slack))}
  IN IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN
                      Bad(s, <<"object", e.obs[i], IF e.obs[i].o \in slots THEN y.ob[e.obs[i].o] ELSE "unknown">>)
     ELSE IF quiet # {} THEN Bad(s, <<"object-not-changed", quiet, {y.ob[o] : o \in quiet}>>)
     ELSE LET ob == [o \in slots |->
                       IF o \in seen THEN LET w == ObsOf(e, o)[1] IN
                            [y.ob[o] EXCEPT !.q = w.q, !.m = w.m, !.pdt = IF y.ob[o].ty = "M" THEN w.pdt ELSE @]
                       ELSE s.x.ob[o]]
              nsm == [n \in {y.ob[o].st : o \in seen} \ DOMAIN s.sm |-> ObsOf(e, CHOOSE o \in seen : y.ob[o].st = n)[1].st]
              nqm == [n \in {y.ob[o].qual : o \in {p \in seen : y.ob[p].ty = "M"}} \ DOMAIN s.qm |->
                        ObsOf(e, CHOOSE o \in seen : y.ob[o].ty = "M" /\ y.ob[o].qual = n)[1].qual]
          IN Good([s EXCEPT !.x = [y EXCEPT !.ob = ob, !.out = <<>>, !.cre = <<>>], !.sm = nsm @@ @, !.qm = nqm @@ @])

(* ---- containers ---- *)
UpdB(bo, e) == [b \in DOMAIN bo \cup {e.bufs[i].b : i \in DOMAIN e.bufs} |->
                 LET S == {i \in DOMAIN e.bufs : e.bufs[i].b = b} IN IF S = {} THEN bo[b] ELSE e.bufs[CHOOSE i \in S : TRUE]]
UpdT(to, e) == [b \in DOMAIN to \cup {e.trks[i].t : i \in DOMAIN e.trks} |->
                 LET S == {i \in DOMAIN e.trks : e.trks[i].t = b} IN IF S = {} THEN to[b] ELSE e.trks[CHOOSE i \in S : TRUE]]
BufOk(x, b, w) ==
  LET n == Len(x.bf[b].it) IN
  /\ w.n = n /\ w.e = (n = 0) /\ w.cap = x.bf[b].cap
  /\ Near(w.q, BufQty(x, b), n + 1)
  /\ IF x.bf[b].cap >= Inf THEN w.sp = Inf ELSE Near(w.sp, BufSpace(x, b), n + 2)
NearI(a, b, s) == IF b >= Inf THEN a = Inf ELSE Near(a, b, s)
TrkOk(x, t, w) ==
  LET n == Len(x.tk[t].b)
      z == 5 + 5 * n
  IN /\ w.n = n /\ NearI(w.tc, x.tk[t].cap, 0) /\ NearI(w.bc, TkBufCap(x, t), 1) /\ NearI(w.cap, TkCap(x, t), 1)
     /\ Near(w.q, TkQty(x, t), z) /\ NearI(w.sp, TkSpace(x, t), z)
     /\ (TkQty(x, t) > z => ~w.e) /\ (\A i \in 1..n : x.bf[x.tk[t].b[i]].it = <<>>) => w.e
     /\ \A i \in 1..n : NearI(w.cs[i], Min2(BufSpace(x, x.tk[t].b[i]), TkSpace(x, t)), z)
Contain(s, e) ==
  LET bo == UpdB(s.bo, e)  to == UpdT(s.to, e)  y == [s EXCEPT !.bo = bo, !.to = to]
      bb == {b \in DOMAIN s.x.bf : b \notin DOMAIN bo \/ ~BufOk(s.x, b, bo[b])}
      tt == {t \in DOMAIN s.x.tk : t \notin DOMAIN to \/ ~TrkOk(s.x, t, to[t])}
  IN IF bb # {} THEN LET b == CHOOSE b \in bb : TRUE IN Bad(y, <<"buffer", bo[b], s.x.bf[b], BufQty(s.x, b)>>)
     ELSE IF tt # {} THEN LET t == CHOOSE t \in tt : TRUE IN Bad(y, <<"tracker", to[t], s.x.tk[t], TkQty(s.x, t)>>)
     ELSE Good(y)

(* the model takes step y; everything recorded and observed must agree *)
Finish(s, e, y, slack, loose) ==
  LET a == AddComps(s, e.comps) IN IF a.err # <<>> THEN a ELSE
  LET b == AddProds(a.k, e.prods) IN IF b.err # <<>> THEN b ELSE
  LET c == MatchRows(b.k, e, y.out, slack, loose) IN IF c.err # <<>> THEN c ELSE
  LET wc == {<<c.k.sm[y.cre[i][1]], y.cre[i][2]>> : i \in DOMAIN y.cre}
      gc == {<<e.cre[i][1], e.cre[i][2]>> : i \in DOMAIN e.cre}
  IN IF wc # gc \/ Len(e.cre) # Len(y.cre) THEN Bad(c.k, <<"creator-rows", e.cre, wc>>) ELSE
  LET d == Settle(c.k, y, e, slack, loose) IN IF d.err # <<>> THEN d ELSE Contain(d.k, e)

(* nothing may change *)
Refuse(s, e, why) == IF e.res \notin why THEN Bad(s, <<"accepted-or-wrong-error", e.op, e.res, "expected", why, e>>)
                     ELSE Finish(s, e, s.x, 0, FALSE)
NewSlot(x, o) == o = Cardinality(DOMAIN x.ob) + 1

(* ---- operations ---- *)
OpMk(s, e) ==
  IF e.res # "ok" \/ ~NewSlot(s.x, e.o) THEN Bad(s, <<"create-failed", e>>)
  ELSE LET q == IF e.ty = "M" THEN QualName(s, e.qual) ELSE 0 IN
       Finish(s, e, Create(s.x, e.o, e.ty, e.q, q, e.ql, e.pkg, e.a), 2, FALSE)
OpUn(s, e) ==
  LET q == IF e.ty = "M" THEN QualName(s, e.qual) ELSE 0 IN
  Finish(s, e, CreateUntracked(s.x, e.o, e.ty, e.q, q, e.ql), 2, FALSE)

OpExt(s, e) ==
  LET x == s.x  Q == x.ob[e.a].q
      y == [x EXCEPT !.t = @]
      go == IF e.op = "ext" THEN Extract(y, e.a, e.o, e.q, Left(x, e, e.a, e.q))
            ELSE PackageExtract(y, e.a, e.o, e.q, e.pkg, Left(x, e, e.a, e.q))
  IN IF e.q > Q + 1 THEN Refuse(s, e, {"value"})
     ELSE IF e.res = "value" /\ Near(e.q, Q, 1) THEN Refuse(s, e, {"value"})
     ELSE IF e.res # "ok" \/ ~NewSlot(x, e.o) THEN Bad(s, <<"extraction-refused", e, Q>>)
     ELSE Finish(s, e, go, 2, FALSE)

OpExtC(s, e) ==
  LET x == s.x  c == QualName(s, e.qual) IN
  IF ~CanExtractComp(x, e.a, e.q, c, 3) THEN Refuse(s, e, {"value"})
  ELSE IF e.res = "value" /\ ~CanExtractComp(x, e.a, e.q, c, -3) THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" \/ ~NewSlot(x, e.o) THEN Bad(s, <<"extraction-refused", e, x.ob[e.a]>>)
  ELSE Finish(s, e, ExtractComp(x, e.a, e.o, e.q, c, Left(x, e, e.a, e.q)), 3, FALSE)

OpAbs(s, e) ==
  IF ~CanAbsorb(s.x, e.a, e.b) THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"absorb-refused", e>>)
  ELSE Finish(s, e, Absorb(s.x, e.a, e.b), 2, Near(s.x.ob[e.a].q, s.x.ob[e.b].q, 1))

OpSq(s, e) ==
  IF e.res # "ok" \/ e.o # e.v[1] THEN Bad(s, <<"squash", e>>)
  ELSE Finish(s, e, Squash(s.x, e.v), 2 + Len(e.v), Cardinality({s.x.ob[e.v[i]].pdt : i \in DOMAIN e.v}) > 1)

OpTra(s, e) == IF e.res # "ok" THEN Bad(s, <<"transmute", e>>)
               ELSE Finish(s, e, Transmute(s.x, e.a, QualName(s, e.qual)), 2, FALSE)

OpClone(s, e) == Finish(s, e, Clone(s.x, e.a, e.o), 2, FALSE)

OpChp(s, e) ==
  LET x == s.x  r == x.ob[e.a] IN
  IF ~r.ctx \/ r.pkg = e.pkg \/ e.pkg = NoPkg
  THEN (IF e.res # "ok" THEN Bad(s, <<"repackage-refused", e>>) ELSE Finish(s, e, Repackage(x, e.a, e.pkg), 2, FALSE))
  ELSE IF e.pkg \notin DOMAIN x.pkgs THEN Refuse(s, e, {"key"})
  ELSE IF ~FitsPkg(x.pkgs[e.pkg], r.q, 1) THEN Refuse(s, e, {"value"})
  ELSE IF e.res = "value" /\ ~FitsPkg(x.pkgs[e.pkg], r.q, -1) THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"repackage-refused", e, r, x.pkgs[e.pkg]>>)
  ELSE Finish(s, e, Repackage(x, e.a, e.pkg), 2, FALSE)

NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], tol)
(* the deterministic strategies give exactly FillSeq; the random ones any sound division *)
PrefixesFull(p, q, v) ==
  LET n == Len(v)
      left(i) == q - SumSeq(SubSeq(v, 1, i - 1))
  IN \A i \in 1..n : left(i) >= p.max - 1 - n \/ (i = n /\ Near(v[i], left(i), 2 + n))
\* a quantity and limits that are exact in binary leave no room for rounding
Exact(p, q) == q % 125 = 0 /\ p.min % 125 = 0 /\ p.max % 125 = 0
FillOk(p, q, v, exact) ==
  /\ FillSound(p, q, v, 1)
  /\ IF p.strat \in {"first", "equal"}
     THEN \E d \in (IF exact THEN {0} ELSE {-1, 0, 1}) : q + d >= 0 /\ NearSeq(FillSeq(p, q + d), v, 2)
     ELSE PrefixesFull(p, q, v)

PackAll(x, e, a, v, qs, pkg) ==
  LET N == Len(v) IN
  FoldLeft(LAMBDA y, i : PackageExtract(y, a, v[i], qs[i], pkg, i < N \/ LeftF(y, e, a, qs[i], N + 1)),
           x, [i \in 1..N |-> i])
OpPk(s, e) ==
  LET x == s.x IN
  IF e.pkg # NoPkg /\ e.pkg \notin DOMAIN x.pkgs THEN Refuse(s, e, {"key"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"packaging-refused", e, x.ob[e.a]>>)
  ELSE LET n0 == Cardinality(DOMAIN x.ob) IN
       IF \E i \in DOMAIN e.v : e.v[i] # n0 + i \/ ObsOf(e, e.v[i]) = <<>> THEN Bad(s, <<"packages", e>>)
       ELSE LET qs == [i \in 1..Len(e.v) |-> ObsOf(e, e.v[i])[1].q] IN
            IF ~FillOk(x.pkgs[e.pkg], x.ob[e.a].q, qs, FALSE) THEN Bad(s, <<"package-fill", qs, x.ob[e.a].q, x.pkgs[e.pkg], FillSeq(x.pkgs[e.pkg], x.ob[e.a].q)>>)
            ELSE Finish(s, e, PackAll(x, e, e.a, e.v, qs, e.pkg), 2 + Len(e.v), FALSE)

OpFill(s, e) ==
  IF e.pkg \notin DOMAIN s.x.pkgs THEN Refuse(s, e, {"key"})
  ELSE IF e.res # "ok" \/ ~FillOk(s.x.pkgs[e.pkg], e.q, e.v, Exact(s.x.pkgs[e.pkg], e.q)) THEN Bad(s, <<"package-fill", e, s.x.pkgs[e.pkg], FillSeq(s.x.pkgs[e.pkg], e.q)>>)
  ELSE Finish(s, e, s.x, 0, FALSE)

OpTuf(s, e) ==
  IF e.tu = "unrestricted" THEN (IF e.res = "ok" /\ e.ship = e.n THEN Good(s) ELSE Bad(s, <<"unrestricted-unit", e>>))
  ELSE IF e.tu \notin DOMAIN s.x.tus THEN Refuse(s, e, {"key"})
  ELSE LET u == s.x.tus[e.tu] IN
       IF e.res # "ok" \/ e.fill # UnitFill(u, e.n) \/ e.ship # Shippable(u, e.n) \/ ~UnitsOk(u, e.n, e.ship)
       THEN Bad(s, <<"transport-units", e, u, UnitFill(u, e.n), Shippable(u, e.n)>>) ELSE Good(s)

Strats(op) == IF op = "pkg" THEN {"first", "equal", "uniform", "normal"} ELSE {"first", "equal", "hybrid"}
OpDecl(s, e) ==
  LET tab == IF e.op = "pkg" THEN s.x.pkgs ELSE s.x.tus
      rec == [min |-> e.min, max |-> e.max, strat |-> e.strat]
      bad == (IF e.name \in DOMAIN tab THEN {"key"} ELSE {}) \cup
             (IF e.min < 0 \/ e.max < 0 \/ e.min > e.max \/ e.strat \notin Strats(e.op) THEN {"value"} ELSE {})
      row == <<[k |-> e.op, name |-> e.name, min |-> e.min, max |-> e.max, strat |-> e.strat]>>
  IN IF bad # {} THEN (IF e.pk # <<>> THEN Bad(s, <<"row-of-refused-declaration", e>>) ELSE Refuse(s, e, bad))
     ELSE IF e.res # "ok" \/ e.pk # row THEN Bad(s, <<"declaration", e>>)
     ELSE Good(IF e.op = "pkg" THEN [s EXCEPT !.x.pkgs = (e.name :> rec) @@ @] ELSE [s EXCEPT !.x.tus = (e.name :> rec) @@ @])

(* ---- buffers ---- *)
OpBuf(s, e) ==
  IF e.bulk /\ e.keep THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"buffer-refused", e>>)
  ELSE Finish(s, e, [s.x EXCEPT !.bf = Append(@, [ty |-> e.ty, bulk |-> e.bulk, keep |-> e.keep, cap |-> Inf, it |-> <<>>])], 0, FALSE)
OpBcap(s, e) ==
  LET q == BufQty(s.x, e.b)  n == Len(s.x.bf[e.b].it) IN
  IF e.cap < 0 \/ q - e.cap > n + 1 THEN Refuse(s, e, {"value"})
  ELSE IF e.res = "value" /\ e.cap < q + n + 1 /\ n > 1 THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"capacity-refused", e, q>>)
  ELSE Finish(s, e, [s.x EXCEPT !.bf[e.b].cap = e.cap], 0, FALSE)
OpPush(s, e) ==
  LET x == s.x  b == x.bf[e.b]
      tot == SumSeq([i \in 1..Len(e.v) |-> x.ob[e.v[i]].q])
      over == IF BufSpace(x, e.b) >= Inf THEN -Inf ELSE tot - BufSpace(x, e.b)
      fuzz == Len(e.v) + Len(b.it) + 1
      cast == \E i \in DOMAIN e.v : x.ob[e.v[i]].ty # b.ty
      dup == (Rng(e.v) \cap Rng(b.it) # {}) \/ Cardinality(Rng(e.v)) # Len(e.v)
      why == (IF cast THEN {"cast"} ELSE {}) \cup (IF dup THEN {"key"} ELSE {}) \cup (IF over > fuzz THEN {"value"} ELSE {})
      loose == b.bulk
  IN IF why # {} THEN Refuse(s, e, IF over > -fuzz THEN why \cup {"value"} ELSE why)
     ELSE IF e.res = "value" /\ over > (IF over = 0 /\ b.it = <<>> /\ Len(e.v) = 1 THEN 0 ELSE -fuzz) THEN Refuse(s, e, {"value"})
     ELSE IF e.res # "ok" THEN Bad(s, <<"push-refused", e, b, tot>>)
     ELSE Finish(s, e, InsertAll(x, e.b, e.v), 2 + Len(e.v), loose)

OpPop1(s, e) ==
  LET x == s.x  it == x.bf[e.b].it  n == Len(it) IN
  IF n = 0 THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"pop-refused", e, it>>)
  ELSE IF e.op = "popb" THEN (IF e.v # <<it[n]>> THEN Bad(s, <<"popped-wrong-resource", e, it>>)
                              ELSE Finish(s, e, [x EXCEPT !.bf[e.b].it = SubSeq(@, 1, n - 1)], 2, FALSE))
  ELSE IF e.v # <<it[1]>> THEN Bad(s, <<"popped-wrong-resource", e, it>>)
  ELSE Finish(s, e, IF e.op = "peek" THEN x ELSE DropN(x, e.b, 1), 2, FALSE)
OpPopN(s, e) ==
  LET x == s.x  it == x.bf[e.b].it IN
  IF e.n < 0 \/ e.n > Len(it) THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" \/ e.v # SubSeq(it, 1, e.n) THEN Bad(s, <<"popped-wrong-resources", e, it>>)
  ELSE Finish(s, e, DropN(x, e.b, e.n), 2, FALSE)

OpPopV(s, e) ==
  LET x == s.x  it == x.bf[e.b].it  Q == BufQty(x, e.b)  fz == Len(it) + 1 IN
  IF e.q > Q + fz THEN Refuse(s, e, {"value"})
  ELSE IF e.res = "value" /\ e.q > Q - fz /\ ~e.all THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"pop-refused", e, it, Q>>)
  ELSE LET m == Len(e.v)
           split == m > 0 /\ e.v[m] \notin DOMAIN x.ob
           n == IF split THEN m - 1 ELSE m
           before == SumSeq([i \in 1..n |-> x.ob[it[i]].q])
       IN IF n > Len(it) \/ SubSeq(e.v, 1, n) # SubSeq(it, 1, n) \/ (split /\ (n = Len(it) \/ ~NewSlot(x, e.v[m])))
          THEN Bad(s, <<"popped-wrong-resources", e, it>>)
          ELSE LET sq == IF split THEN ObsOf(e, e.v[m])[1].q ELSE 0 IN
               IF ~Near(before + sq, e.q, n + 2) \/ (n > 0 /\ SumSeq([i \in 1..(n - 1) |-> x.ob[it[i]].q]) > e.q + n)
               THEN Bad(s, <<"popped-quantity", e, before, sq>>)
               ELSE Finish(s, e, IF split THEN Extract(DropN(x, e.b, n), it[n + 1], e.v[m], sq, Left(x, e, it[n + 1], sq)) ELSE DropN(x, e.b, n), 3, FALSE)

(* pop a quantity as one resource: the items squashed into the first one.   *)
(* Where quantities tie to within rounding the last item may be taken whole *)
(* or split: whichever the recorded history shows                           *)
CountOf(s, e, b) == LET S == {i \in DOMAIN e.bufs : e.bufs[i].b = b} IN
                    IF S = {} THEN s.bo[b].n ELSE e.bufs[CHOOSE i \in S : TRUE].n
PopQAs(s, e, n, split, sp, fz) ==
  LET x == s.x  it == x.bf[e.b].it IN
  IF n = 0
  THEN (IF ~NewSlot(x, e.v[1]) THEN Bad(s, <<"popped-wrong-resource", e, it>>)
        ELSE Finish(s, e, Unpack(Extract(x, it[1], e.v[1], sp, LeftF(x, e, it[1], sp, fz)), e.v[1]), 3 + n, TRUE))
  ELSE IF e.v # <<it[1]>> THEN Bad(s, <<"popped-wrong-resource", e, it>>)
  ELSE LET y == DropN(x, e.b, n)
           z == IF split THEN Extract(y, it[n + 1], 0, sp, LeftF(x, e, it[n + 1], sp, fz)) ELSE y
       IN Finish(s, e, Squash(z, SubSeq(it, 1, n) \o (IF split THEN <<0>> ELSE <<>>)), 3 + 2 * n, TRUE)
OpPopQ(s, e) ==
  LET x == s.x  it == x.bf[e.b].it  Q == BufQty(x, e.b)  fz == Len(it) + 1
      slack == IF e.op = "popqe" THEN e.eps ELSE 0
      n == Len(it) - CountOf(s, e, e.b)
      before == SumSeq([i \in 1..n |-> x.ob[it[i]].q])
      want == Min2(e.q, Q)
      sp == Max2(0, want - before)
      whole == n > 0 /\ Near(before, want, fz)
      split == n < Len(it) /\ before <= want + fz /\ sp <= x.ob[it[n + 1]].q + fz
      W == IF whole THEN PopQAs(s, e, n, FALSE, 0, fz) ELSE Bad(s, <<"popped-quantity", e, before, n, it>>)
  IN IF e.q > Q + slack + fz THEN Refuse(s, e, {"value"})
     ELSE IF e.res = "value" /\ e.q > Q + slack - fz /\ ~e.all THEN Refuse(s, e, {"value"})
     ELSE IF e.res # "ok" THEN Bad(s, <<"pop-refused", e, it, Q>>)
     ELSE IF n < 0 \/ ~(whole \/ split) THEN Bad(s, <<"popped-quantity", e, before, n, it>>)
     ELSE IF whole /\ W.err = <<>> THEN W
     ELSE IF split THEN PopQAs(s, e, n, TRUE, sp, fz)
     ELSE W

OpTrk(s, e) ==
  IF e.v = <<>> \/ e.cap <= 0 THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"tracker-refused", e>>)
  ELSE Finish(s, e, [s.x EXCEPT !.tk = Append(@, [cap |-> e.cap, b |-> e.v])], 0, FALSE)
OpTcap(s, e) ==
  LET q == TkQty(s.x, e.tr)  fz == 2 + 3 * Len(s.x.tk[e.tr].b) IN
  IF q - e.cap > fz THEN Refuse(s, e, {"value"})
  ELSE IF e.res = "value" /\ q - e.cap > -fz /\ q > 0 THEN Refuse(s, e, {"value"})
  ELSE IF e.res # "ok" THEN Bad(s, <<"tracker-capacity-refused", e, q>>)
  ELSE Finish(s, e, [s.x EXCEPT !.tk[e.tr].cap = e.cap], 0, FALSE)

OpMap(s, e) ==
  LET mp == s.x.mp
      has == e.k \in DOMAIN mp
      new == CASE e.op2 = "mset" -> (e.k :> e.o) @@ mp
               [] e.op2 \in {"mpop", "mers"} -> [j \in DOMAIN mp \ {e.k} |-> mp[j]]
               [] e.op2 = "mrng" -> [j \in DOMAIN mp \ (e.k..(e.k + 2)) |-> mp[j]]
               [] e.op2 = "mclr" -> <<>>
               [] OTHER -> mp
      y == [s.x EXCEPT !.mp = new]
      want == IF e.op2 = "mpop" /\ ~has THEN "key" ELSE "ok"
      held == {<<e.held[i][1], e.held[i][2]>> : i \in DOMAIN e.held}
      qty == SumSeq([i \in 1..Len(e.held) |-> s.x.ob[e.held[i][2]].q])
  IN IF e.res # want \/ (e.op2 = "mpop" /\ has /\ e.o # mp[e.k]) \/ (e.op2 = "mers" /\ e.o # (IF has THEN 1 ELSE 0))
        \/ (e.op2 = "mrng" /\ e.o # Cardinality(DOMAIN mp \cap (e.k..(e.k + 2))))
     THEN Bad(s, <<"resource-map", e, mp>>)
     ELSE IF held # {<<j, new[j]>> : j \in DOMAIN new} \/ e.n # Cardinality(DOMAIN new) \/ e.e # (DOMAIN new = {})
             \/ Rng(e.vals) # {new[j] : j \in DOMAIN new} \/ ~Near(e.q, qty, 1 + Len(e.held))
     THEN Bad(s, <<"resource-map-contents", e, new, qty>>)
     ELSE Finish(s, e, y, 0, FALSE)

Apply(s0, e) ==
  LET s == IF Has(e, "t") THEN [s0 EXCEPT !.x.t = e.t] ELSE s0 IN
  CASE e.op = "comp" -> Good([s EXCEPT !.x.nq = @ + 1, !.x.cf = ((s.x.nq + 1) :> e.f) @@ @, !.qm = ((s.x.nq + 1) :> e.qual) @@ @])
    [] e.op \in {"pkg", "tu"} -> OpDecl(s, e)
    [] e.op = "mk" -> OpMk(s, e)
    [] e.op = "un" -> OpUn(s, e)
    [] e.op = "clone" -> OpClone(s, e)
    [] e.op \in {"ext", "pkx"} -> OpExt(s, e)
    [] e.op = "extc" -> OpExtC(s, e)
    [] e.op = "abs" -> OpAbs(s, e)
    [] e.op = "sq" -> OpSq(s, e)
    [] e.op = "tra" -> OpTra(s, e)
    [] e.op = "pk" -> OpPk(s, e)
    [] e.op = "chp" -> OpChp(s, e)
    [] e.op = "fill" -> OpFill(s, e)
    [] e.op = "tuf" -> OpTuf(s, e)
    [] e.op = "buf" -> OpBuf(s, e)
    [] e.op = "bcap" -> OpBcap(s, e)
    [] e.op \in {"push", "pushv"} -> OpPush(s, e)
    [] e.op \in {"pop", "popb", "peek"} -> OpPop1(s, e)
    [] e.op = "popn" -> OpPopN(s, e)
    [] e.op = "popv" -> OpPopV(s, e)
    [] e.op \in {"popq", "popqe"} -> OpPopQ(s, e)
    [] e.op = "trk" -> OpTrk(s, e)
    [] e.op = "tcap" -> OpTcap(s, e)
    [] e.op \in {"mset", "mpop", "mers", "mclr", "mtouch", "mrng", "msave"} -> OpMap(s, e)
    [] e.op = "end" -> IF e.res = "ok" THEN Good([s EXCEPT !.done = TRUE]) ELSE Bad(s, <<"run-aborted", e>>)
    [] OTHER -> Bad(s, <<"unexplained", e>>)

TraceInit == /\ h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
TraceNext ==
  /\ err = <<>>
  /\ l < Len(Hist[h].ev)
  /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN
       /\ k' = r.k
       /\ err' = IF r.err = <<>> /\ l + 1 = Len(Hist[h].ev) /\ ~r.k.done THEN <<"history-incomplete">> ELSE r.err
  /\ l' = l + 1
  /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
ModelInvariant == ObjInv(k.x) /\ BufInv(k.x)
=============================================================================
