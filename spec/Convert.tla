------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Input documents in XML and JSON, their meaning, and the conversions.    *)
(* XML:  an element is [v: text, x: number it spells, c: <<[n, e]>>].       *)
(* JSON: a value is [k: "o"|"a"|"s"|"d"|"b"|"n", v: text, x: number,        *)
(*       m: <<[n, e]>> (members or items)].                                *)
(* A document means, for every name, the sequence of the elements of that  *)
(* name; elements of different names have no order.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names(s) == {s[i].n : i \in DOMAIN s}
RECURSIVE Pick(_, _)
Pick(s, n) == IF s = <<>> THEN <<>> ELSE (IF Head(s).n = n THEN <<Head(s).e>> ELSE <<>>) \o Pick(Tail(s), n)

(* ---- meanings: [v, x, c: name -> sequence of meanings] ---- *)
RECURSIVE XMean(_)
XMean(e) == [v |-> IF e.c = <<>> THEN e.v ELSE "", x |-> IF e.c = <<>> THEN e.x ELSE "", k |-> "t",
             c |-> [n \in Names(e.c) |-> LET q == Pick(e.c, n) IN [i \in 1..Len(q) |-> XMean(q[i])]]]
Items(j) == IF j.k = "a" THEN [i \in 1..Len(j.m) |-> j.m[i].e] ELSE <<j>>
RECURSIVE JMean(_)
JMean(j) ==
  LET full == SelectSeq(j.m, LAMBDA y : Items(y.e) # <<>>) IN
  [v |-> j.v, x |-> j.x, k |-> IF j.k \in {"d", "b"} THEN j.k ELSE "t",
   c |-> [n \in (IF j.k = "o" THEN Names(full) ELSE {}) |->
            LET q == Items(Pick(full, n)[1]) IN [i \in 1..Len(q) |-> JMean(q[i])]]]

(* a number may be spelled in any way, a truth value as 0/1 or false/true *)
SameLeaf(a, b) ==
  IF a.k = "d" \/ b.k = "d" THEN a.x # "" /\ a.x = b.x
  ELSE IF a.k = "b" \/ b.k = "b" THEN (a.v \in {"true", "1"} /\ b.v \in {"true", "1"}) \/ (a.v \in {"false", "0"} /\ b.v \in {"false", "0"})
  ELSE a.v = b.v
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ DOMAIN a.c = DOMAIN b.c
  /\ DOMAIN a.c = {} => SameLeaf(a, b)
  /\ \A n \in DOMAIN a.c : /\ Len(a.c[n]) = Len(b.c[n])
                           /\ \A i \in DOMAIN a.c[n] : Same(a.c[n][i], b.c[n][i])

(* ---- the conversions, as they should be ---- *)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<Head(s).n>> \o Uniq(SelectSeq(Tail(s), LAMBDA y : y.n # Head(s).n))
RECURSIVE X2J(_)
X2J(e) ==
  IF e.c = <<>> THEN [k |-> IF e.v = "" THEN "n" ELSE "s", v |-> e.v, x |-> e.x, m |-> <<>>]
  ELSE LET u == Uniq(e.c) IN
       [k |-> "o", v |-> "", x |-> "",
        m |-> [i \in 1..Len(u) |-> LET q == Pick(e.c, u[i]) IN
                 [n |-> u[i], e |-> IF Len(q) = 1 THEN X2J(q[1])
                                    ELSE [k |-> "a", v |-> "", x |-> "", m |-> [j \in 1..Len(q) |-> [n |-> "", e |-> X2J(q[j])]]]]]]
RECURSIVE J2X(_), Flat(_)
Flat(m) == IF m = <<>> THEN <<>>
           ELSE LET q == Items(Head(m).e) IN [i \in 1..Len(q) |-> [n |-> Head(m).n, e |-> J2X(q[i])]] \o Flat(Tail(m))
J2X(j) == [v |-> j.v, x |-> j.x, c |-> IF j.k = "o" THEN Flat(j.m) ELSE <<>>]
=============================================================================
