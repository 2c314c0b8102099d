------------------------------ MODULE Random ------------------------------
(* The random number service.  One stream per seed: what a call returns is a *)
(* function of the seed and of the calls made since it was set, and nothing  *)
(* else.  Every distribution stays inside its declared support and around    *)
(* its declared mean; a distribution that cannot exist is refused.           *)
(* Real parameters and values are in eighths, integers as they are.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

(* A segment is what happened since one seeding: the seed, the calls and the *)
(* results.  Two segments with one seed agree as long as their calls do.     *)
Agree(s, z) ==
  (s.seed = z.seed) =>
  \A i \in 1..MinOf(Len(s.calls), Len(z.calls)) :
     (\A j \in 1..i : s.calls[j] = z.calls[j]) => s.res[i] = z.res[i]
Reproducible(segs) == \A a \in 1..Len(segs), b \in 1..Len(segs) : Agree(segs[a], segs[b])

(* declared supports: lo and hi in eighths; open: hi itself is not drawn     *)
NoHi == 1600000000
Sup(d) ==
  CASE d.ty = "unit"   -> [lo |-> 0, hi |-> 8, open |-> TRUE, whole |-> FALSE]
    [] d.ty = "uint"   -> [lo |-> 8 * d.a, hi |-> 8 * d.b, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "ureal"  -> [lo |-> d.a, hi |-> d.b, open |-> TRUE, whole |-> FALSE]
    [] d.ty = "nreal"  -> [lo |-> d.c, hi |-> d.d, open |-> FALSE, whole |-> FALSE]
    [] d.ty = "nint"   -> [lo |-> 8 * d.c, hi |-> 8 * d.d, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "rfixed" -> [lo |-> d.a, hi |-> d.a, open |-> FALSE, whole |-> FALSE]
    [] d.ty = "runi"   -> [lo |-> d.a, hi |-> d.b, open |-> TRUE, whole |-> FALSE]
    [] d.ty = "rnorm"  -> [lo |-> d.c, hi |-> d.d, open |-> FALSE, whole |-> FALSE]
    [] d.ty = "rpois"  -> [lo |-> 0, hi |-> NoHi, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "rexp"   -> [lo |-> 0, hi |-> NoHi, open |-> FALSE, whole |-> FALSE]
    [] d.ty = "rbin"   -> [lo |-> MinOf(d.b, d.c), hi |-> MaxOf(d.b, d.c), open |-> FALSE, whole |-> FALSE]
    [] d.ty = "ifixed" -> [lo |-> 8 * d.a, hi |-> 8 * d.a, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "iuni"   -> [lo |-> 8 * d.a, hi |-> 8 * d.b, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "inorm"  -> [lo |-> 8 * d.c, hi |-> 8 * d.d, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "ibinom" -> [lo |-> 0, hi |-> 8 * d.a, open |-> FALSE, whole |-> TRUE]
    [] d.ty = "ibin"   -> [lo |-> 8 * MinOf(d.b, d.c), hi |-> 8 * MaxOf(d.b, d.c), open |-> FALSE, whole |-> TRUE]
    [] OTHER           -> [lo |-> 0, hi |-> NoHi, open |-> FALSE, whole |-> TRUE]  \* ipois, iexp, inegb
\* a value given by its floor in eighths and whether it is exactly that
InSup(s, f, x) ==
  /\ f >= s.lo
  /\ f < s.hi \/ (f = s.hi /\ x /\ ~s.open)
  /\ s.whole => (x /\ f % 8 = 0)
\* the two values a binary distribution chooses between
Choice(d, f, x) ==
  CASE d.ty = "rbin" -> x /\ f \in {d.b, d.c}
    [] d.ty = "ibin" -> x /\ f \in {8 * d.b, 8 * d.c}
    [] OTHER -> TRUE

Possible(d) ==
  CASE d.ty \in {"rnorm", "inorm"} -> d.c < d.d
    [] d.ty \in {"rpois", "ipois", "rexp", "iexp"} -> d.a >= 0
    [] d.ty \in {"ibinom", "inegb"} -> d.a >= 1 /\ d.b >= 0 /\ d.b <= 8
    [] d.ty \in {"rbin", "ibin"} -> d.a >= 0 /\ d.a <= 8
    [] OTHER -> TRUE

\* what a distribution reports about itself
Told(d) ==
  CASE d.ty = "rfixed" -> <<d.a>>
    [] d.ty \in {"runi", "iuni"} -> <<d.b>>
    [] d.ty \in {"rnorm", "inorm"} -> <<d.d>>
    [] d.ty \in {"rpois", "ipois", "rexp", "iexp"} -> <<d.a>>
    [] d.ty \in {"ibinom", "inegb"} -> <<d.a, d.b>>
    [] d.ty = "rbin" -> <<d.a, MaxOf(d.b, d.c)>>
    [] d.ty = "ibin" -> <<d.a>>
    [] d.ty = "ifixed" -> <<>>

\* mean (in eighths; a range) and a bound of the variance (in 64ths), where they are simple
Square(x) == x * x
Mean(d) ==
  CASE d.ty = "rfixed" -> [m |-> <<d.a, d.a>>, v |-> 0]
    [] d.ty = "ifixed" -> [m |-> <<8 * d.a, 8 * d.a>>, v |-> 0]
    [] d.ty = "runi" -> [m |-> <<(d.a + d.b) \div 2, (d.a + d.b + 1) \div 2>>, v |-> (Square(d.b - d.a) \div 12) + 1]
    [] d.ty = "iuni" -> [m |-> <<4 * (d.a + d.b), 4 * (d.a + d.b)>>, v |-> (16 * (Square(d.b - d.a + 1) - 1)) \div 3 + 1]
    [] d.ty = "rnorm" /\ d.a - d.c = d.d - d.a -> [m |-> <<d.a, d.a>>, v |-> Square(d.b)]
    [] d.ty = "inorm" /\ d.a - 8 * d.c = 8 * d.d - d.a -> [m |-> <<d.a, d.a>>, v |-> Square(d.b) + 64]
    [] d.ty \in {"rpois", "ipois"} -> [m |-> <<d.a, d.a>>, v |-> 8 * d.a]
    [] d.ty = "rexp" -> [m |-> <<64 \div d.a, 64 \div d.a>>, v |-> 4096 \div (d.a * d.a)]
    [] d.ty = "iexp" -> [m |-> <<(64 \div d.a) - 8, 64 \div d.a>>, v |-> (4096 \div (d.a * d.a)) + 16]
    [] d.ty = "ibinom" -> [m |-> <<d.a * d.b, d.a * d.b>>, v |-> d.a * d.b * (8 - d.b)]
    [] d.ty = "rbin" -> [m |-> <<((d.a * d.b) + ((8 - d.a) * d.c)) \div 8, (((d.a * d.b) + ((8 - d.a) * d.c)) \div 8) + 1>>, v |-> ((Square(d.b - d.c) * d.a * (8 - d.a)) \div 64) + 1]
    [] d.ty = "ibin" -> [m |-> <<(d.a * d.b) + ((8 - d.a) * d.c), (d.a * d.b) + ((8 - d.a) * d.c)>>, v |-> Square(d.b - d.c) * d.a * (8 - d.a)]
    [] OTHER -> [m |-> <<0, 0>>, v |-> -1]
\* the total of n draws is within six standard deviations of the declared mean
Plausible(d, n, sum) ==
  LET q == Mean(d)
      dev == IF sum < n * q.m[1] THEN (n * q.m[1]) - sum ELSE IF sum > n * q.m[2] THEN sum - (n * q.m[2]) ELSE 0
      e == MaxOf(0, dev - 1)
  IN q.v < 0 \/ (e <= 46000 /\ e * e <= 36 * n * q.v)
=============================================================================
