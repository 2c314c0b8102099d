----------------------------- MODULE MCDecl -----------------------------
(* Every way to declare a state variable: type, requirement and names.  Checked: *)
(* the document that spells a value under the declared names is acceptable, and  *)
(* reads back as that value; under other names it is not.                        *)
EXTENDS Archetype, Json
P(k) == [k |-> k, s |-> <<>>]
C1(k, a) == [k |-> k, s |-> <<a>>]
C2(k, a, b) == [k |-> k, s |-> <<a, b>>]
I == P("int")  S == P("string")  Db == P("double")  F == P("float")  B == P("bool")  N == P("nuc")
Types ==
  {I, S, Db, F, B, N} \cup {C1("vector", x) : x \in {I, Db, S, F, N}} \cup {C1("set", x) : x \in {I, S, F, Db}}
  \cup {C1("list", x) : x \in {I, S, B, F, Db, C2("pair", I, I)}}
  \cup {C2("pair", x, y) : x \in {I, S}, y \in {B, I, F, Db, S}}
  \cup {C2("map", x, y) : x \in {I, S}, y \in {B, I, F, Db, S}} \cup {C2("map", N, Db)}
  \cup {C2("map", S, C1("vector", Db)), C2("map", S, C2("map", I, Db)), C2("map", S, C2("map", N, Db)),
        C2("map", S, C2("pair", Db, C2("map", I, Db))),
        C2("map", I, C2("map", S, Db)), C2("map", S, C1("vector", C2("pair", I, C2("pair", S, S)))),
        C2("map", S, C2("pair", S, C1("vector", Db))), C2("map", S, C2("map", S, I)), C2("map", S, C2("map", S, Db)),
        C1("vector", C2("pair", C2("pair", Db, Db), C2("map", S, Db))), C2("map", C2("pair", S, S), I)}
\* how the names are declared: not at all, the element only, the element as the variable is called,
\* everything, only the innermost ones
Styles == {"none", "top", "own", "full", "deep"}
RECURSIVE Names(_, _, _)
NoName == [n |-> "", item |-> "", s |-> <<>>]
Names(T, st, at) ==
  IF st = "none" THEN NoName
  ELSE IF st = "top" THEN [NoName EXCEPT !.n = "alias"]
  ELSE IF st = "own" THEN [NoName EXCEPT !.n = "var"]
  ELSE [n |-> IF st = "full" \/ Plain(T) \/ at = "" THEN "x" \o at ELSE "",
        item |-> IF st = "full" /\ T.k = "map" THEN "e" \o at ELSE "",
        s |-> [i \in 1..Len(T.s) |-> Names(T.s[i], st, at \o ToString(i))]]
Read1(k) == [bool |-> IF k = "bool" THEN "b1" ELSE "bad", int |-> IF k = "int" THEN "i5" ELSE "bad", nuc |-> IF k = "nuc" THEN "i922350000" ELSE "bad",
             float |-> IF k = "float" THEN "d2.5" ELSE "bad", double |-> IF k = "double" THEN "d1.5" ELSE "bad", string |-> IF k = "string" THEN "sq" ELSE "bad"]
RECURSIVE Spell(_, _, _), Value(_)
Value(T) == IF Plain(T) THEN [v |-> Read1(T.k)[T.k], s |-> <<>>]
            ELSE IF T.k = "pair" THEN [v |-> "", s |-> <<Value(T.s[1]), Value(T.s[2])>>]
            ELSE IF T.k = "map" THEN [v |-> "", s |-> <<[v |-> "", s |-> <<Value(T.s[1]), Value(T.s[2])>>]>>]
            ELSE [v |-> "", s |-> <<Value(T.s[1]), Value(T.s[1])>>]
Spell(T, A, nm) ==
  [t |-> Or(A.n, nm), x |-> IF Plain(T) THEN Read1(T.k) ELSE Read1("none"),
   c |-> IF Plain(T) THEN <<>>
         ELSE IF T.k = "pair" THEN <<Spell(T.s[1], Sub(A, 1), "first"), Spell(T.s[2], Sub(A, 2), "second")>>
         ELSE IF T.k = "map" THEN <<[t |-> Or(A.item, "item"), x |-> Read1("none"), c |-> <<Spell(T.s[1], Sub(A, 1), "key"), Spell(T.s[2], Sub(A, 2), "val")>>]>>
         ELSE <<Spell(T.s[1], Sub(A, 1), "val"), Spell(T.s[1], Sub(A, 1), "val")>>]
Decls == {[t |-> T, mode |-> m, style |-> st] : T \in Types, m \in {"req", "def", "int"}, st \in Styles}
VARIABLE d
Init == d \in {x \in Decls : (x.mode = "int" => x.style = "none") /\ (Plain(x.t) => x.style \notin {"deep", "full"})}
Next == UNCHANGED d
Spec == Init /\ [][Next]_d
A == Names(d.t, d.style, "")
One == [vars |-> <<[n |-> "var", t |-> d.t, a |-> A, mode |-> d.mode, d |-> Value(d.t)]>>, bufs |-> <<>>]
Doc == <<Spell(d.t, A, "var")>>
Means == /\ (d.mode # "int" => Acceptable(One, Doc) /\ Same(d.t, Loaded(One, Doc)[1], Value(d.t)))
         /\ (d.mode = "int" => ~Acceptable(One, Doc) /\ Acceptable(One, <<>>))
         /\ (d.mode = "req" <=> ~Acceptable(One, <<>>))
         /\ ~Acceptable(One, Doc \o Doc) /\ ~Acceptable(One, <<[Doc[1] EXCEPT !.t = "zz"]>>)
Declare == PrintT("BEHAVIOUR " \o ToJson(d))
=============================================================================
