----------------------------- MODULE Policy -----------------------------
(* The stock-keeping policies agents delegate their trading to: what a buy policy asks for in *)
(* each time step and what it does with what arrives, what a sell policy offers and ships.    *)
(* Quantities are in thousandths.                                                             *)
EXTENDS Resource

Min4(a, b, c, d) == Min2(Min2(a, b), Min2(c, d))
Eps == 1    \* smallest quantity that counts

(* buy policies.  dd, ad, sd: what the dormancy, activity and size distributions can draw     *)
(* (empty: the default).  ae, de: the step where the activity, the dormancy ends (-1: never). *)
B0 == [b |-> 0, k |-> 0, thr |-> Inf, q |-> 0, fill |-> Inf, req |-> Inf, cap |-> 0, cyc |-> 0, ad |-> <<>>, dd |-> <<>>, sd |-> <<>>,
       ae |-> 0, de |-> 0, com |-> <<>>]
Cap(x, b) == x.bf[b].cap
Qty(x, b) == x.bf[b].q
Space(x, b) == IF Cap(x, b) >= Inf THEN Inf ELSE Max2(0, Cap(x, b) - Qty(x, b))
TQty(x, k) == SumSeq([i \in 1..Len(x.tk[k].b) |-> Qty(x, x.tk[k].b[i])])
TCap(x, k) == LET C == [i \in 1..Len(x.tk[k].b) |-> Cap(x, x.tk[k].b[i])]
                  bc == IF \E i \in DOMAIN C : C[i] >= Inf THEN Inf ELSE SumSeq(C)
              IN Min2(bc, x.tk[k].cap)
TSpace(x, k) == IF TCap(x, k) >= Inf THEN Inf ELSE Max2(0, TCap(x, k) - TQty(x, k))
\* a policy without a tracker watches its own buffer
Held(x, p) == IF p.k = 0 THEN Qty(x, p.b) ELSE TQty(x, p.k)
Room(x, p) == IF p.k = 0 THEN Space(x, p.b) ELSE TSpace(x, p.k)
Avail(x, p) == Min4(p.thr, IF p.fill >= Inf THEN Inf ELSE p.fill - Qty(x, p.b), Space(x, p.b), Room(x, p))
Dormant(p, t) == t >= p.ae /\ t < p.de
Wants(x, p, t) == Held(x, p) <= p.req /\ ~Dormant(p, t)
\* the quantity asked for, given the drawn size in sixteenths
Amount(x, p, t, size) ==
  IF ~Wants(x, p, t) THEN 0
  ELSE LET a == Avail(x, p)
           s == IF a >= Inf THEN (IF size = 16 THEN Inf ELSE Inf \div 2) ELSE ((a * size) + 8) \div 16
       IN IF p.cap > 0 THEN Min2(s, p.cap - p.cyc) ELSE s

Asks(x, p, t, size) == Wants(x, p, t) /\ Avail(x, p) > 0 /\ size > 0 /\ (p.cap > 0 => p.cap > p.cyc)
\* the number of whole lots in it
Lots(x, p, size) == LET n == (Avail(x, p) * size) \div (16 * p.q) IN IF p.cap > 0 THEN Min2(n, (p.cap - p.cyc) \div p.q) ELSE n

(* sell policies *)
S0 == [b |-> 0, thr |-> Inf, ign |-> FALSE, q |-> 0, pkg |-> NoPkg, tu |-> "unrestricted", com |-> {}]
Unlimited(n) == [name |-> n, min |-> 0, max |-> Inf, strat |-> "first"]
PkgOf(x, n) == IF n = NoPkg THEN Unlimited(n) ELSE x.pkgs[n]
TuOf(x, n) == IF n = "unrestricted" THEN Unlimited(n) ELSE x.tus[n]
Limit(x, s) == LET q == Qty(x, s.b) IN Min2(s.thr, IF s.q > 0 THEN (q \div s.q) * s.q ELSE q)
Ships(u, n) == IF u.name = "unrestricted" THEN n ELSE Shippable(u, n)
Random(p) == p.strat \notin {"first", "equal"}
\* the offers made on one request
Division(x, s, q) == IF s.q > 0 THEN [i \in 1..(q \div s.q) |-> s.q] ELSE IF PkgOf(x, s.pkg).max >= Inf /\ PkgOf(x, s.pkg).min = 0 THEN <<q>> ELSE FillSeq(PkgOf(x, s.pkg), q)
Offers(x, s, q) == LET d == Division(x, s, q) IN SubSeq(d, 1, Ships(TuOf(x, s.tu), Len(d)))
=============================================================================
