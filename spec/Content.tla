------------------------------ MODULE Content ------------------------------
(***************************************************************************)
(* What a material tells about its contents, and the balance of enrichment. *)
(* A material is its mass per nuclide in 1/100 g (U235, U238, Pu239, Fe56,  *)
(* O16), which nuclides its composition names (has), and by how much        *)
(* rounding may have moved these numbers so far (er).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
N == 1..5
A == <<2350, 2381, 2391, 559, 160>>            \* atomic masses in 1/10 g/mol
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Abs(n) == IF n < 0 THEN -n ELSE n
Sum(v) == v[1] + v[2] + v[3] + v[4] + v[5]
RECURSIVE Over(_, _)
Over(v, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN v[n] + Over(v, S \ {n})
Rnd(a, b) == (2 * a + b) \div (2 * b)
(* a / b in 1/10000, in two steps so that nothing overflows *)
Frac(a, b) == IF b = 0 THEN 0 ELSE LET x == a * 100 IN (x \div b) * 100 + ((x % b) * 100) \div b
(* moles of every nuclide, in 1/1000000 *)
Mol(m) == [n \in N |-> (m[n] * 100000) \div A[n]]
MassFrac(m, S) == Frac(Over(m, S), Sum(m))
AtomFrac(m, S) == Frac(Over(Mol(m), S), Sum(Mol(m)))

(* composition: weights by mass or by number of atoms *)
Rel(c, n) == IF c.basis = "mass" THEN c.w[n] ELSE c.w[n] * A[n]
Of(c, q) == LET t == Rel(c, 1) + Rel(c, 2) + Rel(c, 3) + Rel(c, 4) + Rel(c, 5) IN
            [m |-> [n \in N |-> Rnd(q * Rel(c, n), t)], q |-> q, has |-> c.has,
             er |-> IF \A n \in N : (q * Rel(c, n)) % t = 0 THEN 0 ELSE IF c.basis = "mass" THEN 1 ELSE 1 + q \div 2000]
Merge(x, y) == [m |-> [n \in N |-> x.m[n] + y.m[n]], q |-> x.q + y.q, has |-> x.has \cup y.has, er |-> x.er + y.er]
Part(x, q) == [x EXCEPT !.m = [n \in N |-> Rnd(x.m[n] * q, x.q)], !.q = q, !.er = @ + 1]
Rest(x, q) == [x EXCEPT !.m = [n \in N |-> x.m[n] - Rnd(x.m[n] * q, x.q)], !.q = @ - q, !.er = @ + 1]
(* the most of a composition by mass that can be taken out of x *)
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
Amount(x, w) == Min({ (x.m[n] * Sum(w)) \div w[n] : n \in {k \in N : w[k] > 0} })
Less(x, w, a) == [n \in N |-> x.m[n] - (a * w[n]) \div Sum(w)]

(* enrichment: assays in 1/10000 *)
Feed(q, f, p, t) == (q * (p - t)) \div (f - t)
Tails(q, f, p, t) == (q * (p - f)) \div (f - t)
(* the value function (1 - 2x) ln(1/x - 1), in 1/10000 *)
Vx == <<10, 20, 30, 50, 71, 72, 100, 200, 300, 400, 500, 1000, 2000, 5000, 8000, 9000, 9900>>
Vv == <<68929, 61878, 57713, 52404, 48704, 48555, 45032, 37361, 32675, 29238, 26500, 17578, 8318, 0, 8318, 17578, 45032>>
V(a) == Vv[CHOOSE i \in DOMAIN Vx : Vx[i] = a]
(* (f - t) times the separative work per unit of product *)
Work(f, p, t) == (f - t) * V(p) + (p - f) * V(t) - (p - t) * V(f)
=============================================================================
