------------------------------- MODULE Decay -------------------------------
(***************************************************************************)
(* Radioactive decay of materials, in a simulation whose time step is the  *)
(* half-life of nuclide 1.  Contents are <<decaying, its daughter, stable,  *)
(* very slow, unknown to the decay data, many stable ones>> in 1/65536 kg,  *)
(* quantities in 1/8 kg.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
G == 1..6
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
NoFn == [y \in {} |-> 0]
S0 == [mode |-> "manual", k |-> 1, now |-> 0, ms |-> NoFn, cs |-> NoFn]

RECURSIVE Half(_, _)
Half(p, n) == IF n = 0 \/ p = 0 THEN p ELSE Half(p \div 2, n - 1)
(* n half-lives *)
Age(m, n) == LET p == Half(m[1], n) IN [i \in G |-> IF i = 1 THEN p ELSE IF i = 2 THEN m[2] + m[1] - p ELSE m[i]]

(* A material: contents m as of time last, which nuclides are in it (has), quantity q *)
Counts(s, x, dt) == x.has[1] \/ x.has[6] \/ (x.has[4] /\ dt >= s.k)
To(s, x, t) ==
  LET dt == t - x.last IN
  IF s.mode = "never" \/ dt <= 0 \/ ~Counts(s, x, dt) THEN x
  ELSE [x EXCEPT !.m = Age(x.m, dt), !.last = IF t < s.now THEN s.now ELSE t, !.has = IF x.has[1] THEN [x.has EXCEPT ![2] = TRUE] ELSE x.has]
(* reading a composition *)
Seen(s, x) == IF s.mode = "lazy" THEN To(s, x, s.now) ELSE x
Of(c, q) == [i \in G |-> (c.m[i] * q) \div 8]
New(s, c, q) == [m |-> Of(c, q), has |-> c.has, last |-> s.now, q |-> q]
Part(x, q) == [x EXCEPT !.q = q, !.m = [i \in G |-> (x.m[i] * q) \div x.q]]
Rest(x, q) == [x EXCEPT !.q = x.q - q, !.m = [i \in G |-> x.m[i] - (x.m[i] * q) \div x.q]]
Sum(x, y) == [m |-> [i \in G |-> x.m[i] + y.m[i]], has |-> [i \in G |-> x.has[i] \/ y.has[i]], last |-> x.last, q |-> x.q + y.q]
Total(m) == m[1] + m[2] + m[3] + m[4] + m[5] + m[6]
=============================================================================
