---------------------------- MODULE Archetype ----------------------------
(* What an archetype's declared state variables mean: which input documents it   *)
(* accepts, which values an agent then holds, and what cloning, saving and       *)
(* restoring do to them.                                                         *)
(*   type     [k |-> kind, s |-> element types]                                  *)
(*   names    [n |-> element name, item |-> entry name, s |-> names of elements], *)
(*            "" where nothing was declared                                      *)
(*   document [t |-> tag, x |-> reading of the text per kind, c |-> children]    *)
(*   value    [v |-> literal, s |-> elements]                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Many == {"vector", "list", "set"}
Plain(T) == T.k \notin Many \cup {"map", "pair"}
Or(a, b) == IF a = "" THEN b ELSE a
Sub(A, i) == IF i <= Len(A.s) THEN A.s[i] ELSE [n |-> "", item |-> "", s |-> <<>>]

RECURSIVE Fits(_, _, _, _), Read(_, _, _, _)
\* a node holds a value of type T under the names A (own name: nm if none is declared)
Fits(T, A, nm, x) ==
  /\ x.t = Or(A.n, nm)
  /\ IF Plain(T) THEN x.c = <<>> /\ x.x[T.k] # "bad"
     ELSE IF T.k \in Many THEN Len(x.c) > 0 /\ \A i \in 1..Len(x.c) : Fits(T.s[1], Sub(A, 1), "val", x.c[i])
     ELSE IF T.k = "pair" THEN
       Len(x.c) = 2 /\ \E p \in {<<1, 2>>, <<2, 1>>} : Fits(T.s[1], Sub(A, 1), "first", x.c[p[1]]) /\ Fits(T.s[2], Sub(A, 2), "second", x.c[p[2]])
     ELSE
       /\ Len(x.c) > 0
       /\ \A i \in 1..Len(x.c) :
            LET y == x.c[i] IN
            /\ y.t = Or(A.item, "item")
            /\ Len(y.c) = 2
            /\ \E p \in {<<1, 2>>, <<2, 1>>} : Fits(T.s[1], Sub(A, 1), "key", y.c[p[1]]) /\ Fits(T.s[2], Sub(A, 2), "val", y.c[p[2]])
Child(x, T, A, nm) == CHOOSE y \in {x.c[i] : i \in 1..Len(x.c)} : Fits(T, A, nm, y)
Two(T, A, n1, n2, x) == [v |-> "", s |-> <<Read(T.s[1], Sub(A, 1), n1, Child(x, T.s[1], Sub(A, 1), n1)), Read(T.s[2], Sub(A, 2), n2, Child(x, T.s[2], Sub(A, 2), n2))>>]
Read(T, A, nm, x) ==
  IF Plain(T) THEN [v |-> x.x[T.k], s |-> <<>>]
  ELSE IF T.k \in Many THEN [v |-> "", s |-> [i \in 1..Len(x.c) |-> Read(T.s[1], Sub(A, 1), "val", x.c[i])]]
  ELSE IF T.k = "pair" THEN Two(T, A, "first", "second", x)
  ELSE [v |-> "", s |-> [i \in 1..Len(x.c) |-> Two(T, A, "key", "val", x.c[i])]]

\* two values of a type are the same: sets and maps have no order
RECURSIVE Same(_, _, _)
Rng(s) == {s[i] : i \in 1..Len(s)}
Same(T, a, b) ==
  IF Plain(T) THEN a.v = b.v
  ELSE IF T.k = "pair" THEN Len(a.s) = 2 /\ Len(b.s) = 2 /\ Same(T.s[1], a.s[1], b.s[1]) /\ Same(T.s[2], a.s[2], b.s[2])
  ELSE IF T.k \in {"vector", "list"} THEN Len(a.s) = Len(b.s) /\ \A i \in 1..Len(a.s) : Same(T.s[1], a.s[i], b.s[i])
  ELSE IF T.k = "set" THEN
    /\ \A i \in 1..Len(a.s) : \E j \in 1..Len(b.s) : Same(T.s[1], a.s[i], b.s[j])
    /\ \A i \in 1..Len(b.s) : \E j \in 1..Len(a.s) : Same(T.s[1], a.s[j], b.s[i])
  ELSE
    /\ Len(a.s) = Len(b.s)
    /\ \A i \in 1..Len(a.s) : \E j \in 1..Len(b.s) : Same(T.s[1], a.s[i].s[1], b.s[j].s[1]) /\ Same(T.s[2], a.s[i].s[2], b.s[j].s[2])

\* the element name of a variable, and which nodes of a document are its own
Tag(v) == Or(v.a.n, v.n)
Given(v, doc) == {i \in 1..Len(doc) : doc[i].t = Tag(v)}
\* a document is acceptable: every node belongs to one input variable, in its form, none
\* twice, and everything required is there
Inputs(d) == {i \in 1..Len(d.vars) : d.vars[i].mode # "int"}
Acceptable(d, doc) ==
  /\ \A k \in 1..Len(doc) : \E i \in Inputs(d) : Fits(d.vars[i].t, d.vars[i].a, d.vars[i].n, doc[k])
  /\ \A i \in Inputs(d) : Cardinality(Given(d.vars[i], doc)) <= 1
  /\ \A i \in Inputs(d) : d.vars[i].mode = "req" => Given(d.vars[i], doc) # {}
Loaded(d, doc) ==
  [i \in 1..Len(d.vars) |->
     LET v == d.vars[i]
         g == IF v.mode = "int" THEN {} ELSE Given(v, doc)
     IN IF g = {} THEN v.d ELSE Read(v.t, v.a, v.n, doc[CHOOSE k \in g : TRUE])]
\* capacity of a buffer of an agent set up from the database: a number or a variable's value
Capacity(d, b, vals) ==
  IF b.capvar # "" THEN vals[CHOOSE i \in 1..Len(d.vars) : d.vars[i].n = b.capvar].v ELSE b.cap
FromDb(d, vals, life, proto) == [vals |-> vals, life |-> life, proto |-> proto, bufs |-> [i \in 1..Len(d.bufs) |-> [cap |-> Capacity(d, d.bufs[i], vals), ids |-> <<>>]]]
Cloned(a) == [a EXCEPT !.bufs = [i \in DOMAIN @ |-> [cap |-> @[i].cap, ids |-> <<>>]]]
SavedOf(a) == [vals |-> a.vals, life |-> a.life, proto |-> a.proto, inv |-> [i \in DOMAIN a.bufs |-> a.bufs[i].ids]]
Restored(d, s) == LET a == FromDb(d, s.vals, s.life, s.proto) IN [a EXCEPT !.bufs = [i \in DOMAIN @ |-> [cap |-> @[i].cap, ids |-> s.inv[i]]]]
=============================================================================
