------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* Supply, demand and building: producers of commodities with a capacity   *)
(* and a building cost, builders that can build them, managers that count  *)
(* what exists, demand functions of time, and the decision how many of     *)
(* which producer to build.  All quantities are integers in eighths.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Big == 1000000000

RECURSIVE SumF(_, _)
SumF(T, f) == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN f[e] + SumF(T \ {e}, f)
MinS(T) == CHOOSE m \in T : \A y \in T : m <= y
CeilDiv(a, b) == (a + b - 1) \div b

(* ---- state ----                                                          *)
(* s.pr  producer -> [cap, cost (defaults), co: commodity -> [cap, cost]]   *)
(* s.bs  builder -> producers      s.bm builders of the building manager    *)
(* s.gs  producer manager -> producers   s.sd those that count as supply    *)
(* s.fn  function -> [k: "lin"|"exp"|"pw", ...]   s.de commodity -> function *)
NoFn == [x \in {} |-> 0]
S0 == [pr |-> NoFn, bs |-> NoFn, bm |-> {}, gs |-> NoFn, sd |-> {}, fn |-> NoFn, de |-> NoFn]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE {}

Makes(s, p, c) == p \in DOMAIN s.pr /\ c \in DOMAIN s.pr[p].co
CapOf(s, p, c) == s.pr[p].co[c].cap
CostOf(s, p, c) == s.pr[p].co[c].cost
Total(s, g, c) == LET P == {p \in s.gs[g] : Makes(s, p, c)} IN SumF(P, [p \in P |-> CapOf(s, p, c)])
Supply(s, c) == SumF(s.sd, [g \in s.sd |-> Total(s, g, c)])

(* ---- functions ---- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* v * 2^(n) with n possibly negative; the scripts keep it exact *)
Shift(v, n) == IF n >= 0 THEN v * Pow2(n) ELSE v \div Pow2(-n)
RECURSIVE Val(_, _, _)
Val(s, n, x) ==
  LET f == s.fn[n] IN
  IF f.k = "lin" THEN (f.a * x) \div 8 + f.b
  ELSE IF f.k = "exp" THEN Shift(f.a, (f.b * x) \div 64) + f.c
  ELSE LET P == {i \in DOMAIN f.ps : f.ps[i].x <= x} IN
       IF P = {} THEN 0
       ELSE LET q == f.ps[CHOOSE i \in P : \A j \in P : j <= i] IN Val(s, q.f, x - q.x) + q.y
PwAdd(s, n, f, x, cont) ==
  LET y == IF cont THEN Val(s, n, x) - Val(s, f, 0) ELSE 0
  IN [s EXCEPT !.fn = Put(s.fn, n, [s.fn[n] EXCEPT !.ps = Append(@, [f |-> f, x |-> x, y |-> y])])]
PwOk(s, n, x) == LET ps == s.fn[n].ps IN ps = <<>> \/ x > ps[Len(ps)].x

(* ---- the decision ---- *)
Candidates(s, c) == {p \in UNION {Get(s.bs, b) : b \in s.bm} : Makes(s, p, c)}
Useful(s, c) == {p \in Candidates(s, c) : CapOf(s, p, c) > 0}
RECURSIVE MinCost(_, _, _, _)
MinCost(s, c, P, d) ==
  IF d <= 0 THEN 0
  ELSE LET p == CHOOSE p \in P : \A q \in P : CapOf(s, p, c) >= CapOf(s, q, c)
           k == CeilDiv(d, CapOf(s, p, c))
       IN IF P = {p} THEN k * CostOf(s, p, c)
          ELSE MinS({n * CostOf(s, p, c) + MinCost(s, c, P \ {p}, d - n * CapOf(s, p, c)) : n \in 0..k})
(* o: producer -> number ordered *)
Meets(s, c, o, d) == SumF(DOMAIN o, [p \in DOMAIN o |-> o[p] * CapOf(s, p, c)]) >= d
Spend(s, c, o) == SumF(DOMAIN o, [p \in DOMAIN o |-> o[p] * CostOf(s, p, c)])
(* known finding: the integer solver sometimes misses the cheapest decision *)
(* when it is better by exactly the smallest step the costs allow           *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE GcdS(_)
GcdS(T) == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN Gcd(e, GcdS(T \ {e}))
Step(s, c) == GcdS({CostOf(s, p, c) : p \in Candidates(s, c)})
Priced(s, c) == \A p \in Candidates(s, c) : CostOf(s, p, c) < Big
RightTo(s, c, o, d, slack) ==
  IF d <= 0 \/ Useful(s, c) = {} THEN DOMAIN o = {}
  ELSE /\ DOMAIN o \subseteq Candidates(s, c)
       /\ Meets(s, c, o, d)
       /\ Priced(s, c) => LET m == MinCost(s, c, Useful(s, c), d) IN
                            Spend(s, c, o) \in {m, m + slack}
Right(s, c, o, d) == RightTo(s, c, o, d, 0)
=============================================================================
