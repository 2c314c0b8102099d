----------------------------- MODULE MCConvert -----------------------------
(* Every document over two names up to depth two and three children: the    *)
(* conversions keep its meaning, and going there and back again too.        *)
EXTENDS Convert, Json
CONSTANTS Wide
Leaf(t) == [v |-> t, x |-> "", c |-> <<>>]
Leaves == {Leaf(""), Leaf("t")}
Kids(E, w) == UNION {[1..k -> {[n |-> n, e |-> e] : n \in {"a", "b"}, e \in E}] : k \in 1..w}
Inner == Leaves \cup {[v |-> "", x |-> "", c |-> s] : s \in Kids(Leaves, 2)}
VARIABLES d, n
vars == <<d, n>>
Init == d \in {[v |-> "", x |-> "", c |-> s] : s \in Kids(Inner, Wide)} /\ n = 0
Next == n < 2 /\ n' = n + 1 /\ d' = J2X(X2J(d))
Spec == Init /\ [][Next]_vars
Keeps == Same(XMean(d), JMean(X2J(d))) /\ Same(XMean(d), XMean(J2X(X2J(d))))
Stable == [][n = 1 => d' = d]_vars       \* a converted document converts to itself
Docs == n = 0 => PrintT("BEHAVIOUR " \o ToJson(d))
=============================================================================
