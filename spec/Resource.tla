------------------------------ MODULE Resource ------------------------------
(***************************************************************************)
(* Resources (materials and products), their packaging, and the containers *)
(* that hold them, together with the provenance rows recorded about them.  *)
(*                                                                         *)
(* Quantities are integers in thousandths of a unit; a material carries    *)
(* the mass of three nuclides.  The state is one record x:                 *)
(*   x.ob   slot -> object [ty, q, m, st, qual, ql, pkg, trk, ctx, pdt]    *)
(*   x.nst  number of resource states so far (each is named once)          *)
(*   x.nq   number of compositions so far                                  *)
(*   x.cf   composition -> mass fractions (given as relative integers)     *)
(*   x.pkgs, x.tus  packages and transport units by name                   *)
(*   x.bf   buffers [ty, bulk, keep, cap, it]   x.tk  trackers [cap, b]    *)
(*   x.mp   the resource map: key -> slot                                  *)
(*   x.out  rows the current operation records, x.cre creator rows         *)
(* Slot 0 is a resource that exists only inside one operation.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Inf == 1000000000
NoPkg == "unpackaged"
Nucs == 1..3
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
Near(a, b, tol) == Abs(a - b) <= tol
MinusInf(a, b) == IF a >= Inf THEN Inf ELSE a - b
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Sum3(m) == m[1] + m[2] + m[3]
Rng(s) == {s[i] : i \in DOMAIN s}

X0 == [ob |-> <<>>, nst |-> 0, nq |-> 0, cf |-> <<>>, pkgs |-> <<>>, tus |-> <<>>, bf |-> <<>>, tk |-> <<>>,
       mp |-> <<>>, out |-> <<>>, cre |-> <<>>, t |-> 0]

(* part of each nuclide in q out of a mixture of total tot (rounded) *)
Part(n, q, tot) == IF tot = 0 THEN 0 ELSE ((n * q) + tot \div 2) \div tot
(* (tuples written out: TLC evaluates them once, where a function constructor would be re-evaluated) *)
Share3(m, q, tot) == <<Part(m[1], q, tot), Part(m[2], q, tot), Part(m[3], q, tot)>>
Take3(m, p) == <<Max2(0, m[1] - p[1]), Max2(0, m[2] - p[2]), Max2(0, m[3] - p[3])>>
Plus3(m, p) == <<m[1] + p[1], m[2] + p[2], m[3] + p[3]>>
MassOf(f, q) == Share3(f, q, Sum3(f))

(* ---- elementary steps ---- *)
Put(x, o, r) == [x EXCEPT !.ob = (o :> r) @@ @]
(* a tracked object enters a new state: it is named and recorded *)
Rec(x, o, p1, p2) ==
  LET r == x.ob[o] IN
  IF ~r.trk THEN x
  ELSE LET s == x.nst + 1
           r2 == [r EXCEPT !.st = s]
       IN [x EXCEPT !.nst = s, !.ob = (o :> r2) @@ @,
             !.out = Append(@, [o |-> o, st |-> s, ty |-> r.ty, t |-> x.t, q |-> r.q, m |-> r.m, qual |-> r.qual,
                                ql |-> r.ql, pkg |-> r.pkg, p1 |-> p1, p2 |-> p2, pdt |-> r.pdt])]
(* a new object; untracked ones are never recorded but do have a state of their own *)
New(x, o, r) == IF r.trk THEN Put(x, o, [r EXCEPT !.st = 0])
                ELSE [Put(x, o, [r EXCEPT !.st = x.nst + 1]) EXCEPT !.nst = @ + 1]

Obj(ty, q, m, qual, ql, pkg, trk, ctx, t) ==
  [ty |-> ty, q |-> q, m |-> m, st |-> 0, qual |-> qual, ql |-> ql, pkg |-> pkg, trk |-> trk, ctx |-> ctx, pdt |-> t]

Create(x, o, ty, q, qual, ql, pkg, a) ==
  LET m == IF ty = "M" THEN MassOf(x.cf[qual], q) ELSE <<0, 0, 0>>
      y == Rec(New(x, o, Obj(ty, q, m, qual, ql, pkg, TRUE, TRUE, x.t)), o, 0, 0)
  IN [y EXCEPT !.cre = Append(@, <<y.ob[o].st, a>>)]
CreateUntracked(x, o, ty, q, qual, ql) ==
  New(x, o, Obj(ty, q, IF ty = "M" THEN MassOf(x.cf[qual], q) ELSE <<0, 0, 0>>, qual, ql, NoPkg, FALSE, FALSE, 0))
(* a copy shares the state it was copied in, and is never recorded *)
Clone(x, a, o) == Put(x, o, [x.ob[a] EXCEPT !.trk = FALSE])

(* o becomes q out of a; left: is anything left of a? *)
Extract(x, a, o, q, left) ==
  LET s == x.ob[a]
      pm == Share3(s.m, q, s.q)
      p == [s EXCEPT !.q = q, !.m = pm, !.pkg = IF s.ty = "M" THEN NoPkg ELSE s.pkg]
      y == [x EXCEPT !.ob[a] = [@ EXCEPT !.q = @ - q, !.m = Take3(@, pm)]]
      z == Rec(New(y, o, p), o, s.st, 0)
  IN IF left THEN Rec(z, a, s.st, 0) ELSE z

(* o becomes q of composition c taken out of material a *)
CanExtractComp(x, a, q, c, slack) ==
  LET s == x.ob[a]  pm == MassOf(x.cf[c], q) IN
  q <= s.q + slack /\ (c = s.qual \/ \A i \in Nucs : pm[i] <= s.m[i] + slack)
ExtractComp(x, a, o, q, c, left) ==
  IF x.ob[a].qual = c THEN Extract(x, a, o, q, left)
  ELSE LET s == x.ob[a]
           pm == MassOf(x.cf[c], q)
           p == [s EXCEPT !.q = q, !.m = pm, !.pkg = NoPkg, !.qual = c]
           y == [x EXCEPT !.ob[a] = [@ EXCEPT !.q = @ - q, !.m = Take3(@, pm), !.qual = x.nq + 1],
                          !.nq = @ + 1]
           z == Rec(New(y, o, p), o, s.st, 0)
       IN IF left THEN Rec(z, a, s.st, 0) ELSE z

CanAbsorb(x, a, b) == x.ob[a].ty = "M" \/ x.ob[a].ql = x.ob[b].ql
Absorb(x, a, b) ==
  LET r == x.ob[a]  s == x.ob[b]
      mix == r.ty = "M" /\ r.qual # s.qual
      y == [x EXCEPT !.ob = (a :> [r EXCEPT !.q = @ + s.q, !.m = Plus3(@, s.m),
                                            !.qual = IF mix THEN x.nq + 1 ELSE @,
                                            !.pdt = IF r.q < s.q THEN s.pdt ELSE @]
                             @@ b :> [s EXCEPT !.q = 0, !.m = <<0, 0, 0>>]) @@ @,
                     !.nq = IF mix THEN @ + 1 ELSE @]
  IN Rec(y, a, r.st, s.st)

(* the new composition is right as of now *)
Transmute(x, a, c) ==
  LET r == x.ob[a]
      y == [x EXCEPT !.ob[a] = [@ EXCEPT !.qual = c, !.m = MassOf(x.cf[c], r.q),
                                         !.pdt = IF r.ctx THEN Max2(@, x.t) ELSE @]]
  IN Rec(y, a, r.st, 0)

(* ---- packaging ---- *)
PackageExtract(x, a, o, q, pkg, left) ==
  LET s == x.ob[a]
      pm == Share3(s.m, q, s.q)
      p == [s EXCEPT !.q = q, !.m = pm, !.pkg = pkg]
      y == [x EXCEPT !.ob[a] = [@ EXCEPT !.q = @ - q, !.m = Take3(@, pm)]]
      z == Rec(New(y, o, p), o, s.st, 0)
  IN IF left THEN Rec(z, a, s.st, 0) ELSE z

Repackage(x, a, pkg) ==
  IF x.ob[a].pkg = pkg \/ ~x.ob[a].ctx THEN x
  ELSE Rec([x EXCEPT !.ob[a].pkg = pkg], a, x.ob[a].st, 0)
Unpack(x, a) == Repackage(x, a, NoPkg)
FitsPkg(p, q, slack) == q >= p.min - slack /\ q <= p.max + slack

(* how a quantity is divided over packages: strategies "first" and "equal" *)
Ceil(a, b) == (a \div b) + (IF a % b # 0 THEN 1 ELSE 0)
(* enough for n equal parts of at least min each? *)
Splits(q, min, n) == min = 0 \/ (q \div min) >= n
FillMass(p, q) == IF p.strat = "equal" /\ Splits(q, p.min, Ceil(q, p.max))
                  THEN q \div Ceil(q, p.max) ELSE Min2(q, p.max)
FillSeq(p, q) ==
  IF q < p.min \/ q = 0 THEN <<>>
  ELSE IF p.strat = "equal" /\ Splits(q, p.min, Ceil(q, p.max))
       THEN [i \in 1..Ceil(q, p.max) |-> q \div Ceil(q, p.max)]
  ELSE LET f == Min2(q, p.max)
           n == q \div f
           rest == q - n * f
       IN [i \in 1..n |-> f] \o (IF rest > 0 /\ rest >= p.min THEN <<rest>> ELSE <<>>)
(* any division: every package within the limits, and what is left over     *)
(* would not fill another one                                               *)
FillSound(p, q, s, slack) ==
  /\ \A i \in DOMAIN s : FitsPkg(p, s[i], slack)
  /\ SumSeq(s) <= q + slack + Len(s)
  /\ q - SumSeq(s) < Max2(p.min, 1) + slack + Len(s)

(* transport units hold between min and max packages each *)
UnitFill(u, n) ==
  IF n < u.min \/ n = 0 \/ u.max = 0 THEN 0
  ELSE IF u.strat # "first" /\ Splits(n, u.min, Ceil(n, u.max)) THEN n \div Ceil(n, u.max) ELSE u.max
RECURSIVE Hybrid(_, _)
Hybrid(u, n) == IF n = 0 \/ n < u.min \/ UnitFill(u, n) = 0 THEN 0
                ELSE UnitFill(u, n) + Hybrid(u, n - UnitFill(u, n))
Shippable(u, n) ==
  IF n = 0 \/ n < u.min THEN 0
  ELSE IF u.strat = "hybrid" THEN Hybrid(u, n)
  ELSE IF UnitFill(u, n) = 0 THEN 0 ELSE (n \div UnitFill(u, n)) * UnitFill(u, n)
(* what may leave: never more than there is, and divisible into unit loads  *)
UnitsOk(u, n, ship) == ship >= 0 /\ ship <= n /\ (ship = 0 \/ \E k \in 1..ship : k * u.min <= ship /\ ship <= k * u.max)

(* ---- buffers ---- *)
BufQty(x, b) == SumSeq([i \in 1..Len(x.bf[b].it) |-> x.ob[x.bf[b].it[i]].q])
BufSpace(x, b) == IF x.bf[b].cap >= Inf THEN Inf ELSE Max2(0, x.bf[b].cap - BufQty(x, b))
Insert(x, b, o) ==
  IF x.bf[b].bulk /\ x.bf[b].it # <<>> THEN Absorb(x, x.bf[b].it[1], o)
  ELSE LET y == IF x.bf[b].keep THEN x ELSE Unpack(x, o) IN [y EXCEPT !.bf[b].it = Append(@, o)]
InsertAll(x, b, s) == FoldLeft(LAMBDA y, o : Insert(y, b, o), x, s)
DropN(x, b, n) == [x EXCEPT !.bf[b].it = SubSeq(@, n + 1, Len(@))]
AbsorbAll(x, a, s) == FoldLeft(LAMBDA y, o : Absorb(y, a, o), x, s)
Squash(x, s) == Unpack(AbsorbAll(x, Head(s), Tail(s)), Head(s))
(* the first n items whole, then q more out of the next one as slot o *)
PopSplit(x, b, n, q, o) ==
  LET y == DropN(x, b, n) IN
  IF o < 0 THEN y ELSE Extract(y, y.bf[b].it[1], o, q, TRUE)

(* ---- trackers ---- *)
TkQty(x, k) == SumSeq([i \in 1..Len(x.tk[k].b) |-> BufQty(x, x.tk[k].b[i])])
TkBufCap(x, k) == LET C == [i \in 1..Len(x.tk[k].b) |-> x.bf[x.tk[k].b[i]].cap] IN
                  IF \E i \in DOMAIN C : C[i] >= Inf THEN Inf ELSE SumSeq(C)
TkCap(x, k) == Min2(TkBufCap(x, k), x.tk[k].cap)
TkSpace(x, k) == IF TkCap(x, k) >= Inf THEN Inf ELSE Max2(0, TkCap(x, k) - TkQty(x, k))

(* ---- invariants of the model ---- *)
TotalMass(x) == [i \in Nucs |-> SumSeq([o \in 1..Cardinality(DOMAIN x.ob) |-> IF x.ob[o].trk THEN x.ob[o].m[i] ELSE 0])]
ObjInv(x) == \A o \in DOMAIN x.ob :
   /\ x.ob[o].q >= 0
   /\ x.ob[o].ty = "M" => \A i \in Nucs : x.ob[o].m[i] >= 0
BufInv(x) ==
  /\ \A b \in DOMAIN x.bf : Cardinality(Rng(x.bf[b].it)) = Len(x.bf[b].it)
  /\ \A b \in DOMAIN x.bf : x.bf[b].bulk => Len(x.bf[b].it) <= 1
  /\ \A b, c \in DOMAIN x.bf : b # c => Rng(x.bf[b].it) \cap Rng(x.bf[c].it) = {}
=============================================================================
