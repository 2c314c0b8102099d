----------------------------- MODULE MCResource -----------------------------
(* All short histories over two materials, one package type and one buffer. *)
(* Mass is neither made nor lost, every state ever recorded is recorded     *)
(* once after its parents, and the record of each object's latest state     *)
(* describes the object.                                                    *)
EXTENDS Resource, Json

CONSTANTS MaxOps, Bulk, Keep, Emit

VARIABLES x, led, scr, done
vars == <<x, led, scr, done>>

P0 == [min |-> 1000, max |-> 2000, strat |-> "first"]
Pre == << "comp c0 1 0 0", "comp c1 1 1 0", "pkg k0 1000 2000 first", IF Bulk THEN "buf M 1 0 1" ELSE IF Keep THEN "buf M 0 1 1" ELSE "buf M 0 0 1",
          "bcap 0 4000", "mk M 0 3000 c0 -", "mk M 1 2000 c1 -" >>
XInit == LET a == [X0 EXCEPT !.nq = 2, !.cf = (1 :> <<1, 0, 0>>) @@ (2 :> <<1, 1, 0>>), !.pkgs = ("k0" :> P0),
                             !.bf = <<[ty |-> "M", bulk |-> Bulk, keep |-> Keep, cap |-> 4000, it |-> <<>>]>>]
         IN Create(Create(a, 1, "M", 3000, 1, "", NoPkg, 1), 2, "M", 2000, 2, "", NoPkg, 2)
Flush(y) == [y EXCEPT !.out = <<>>, !.cre = <<>>]
Init == x = Flush(XInit) /\ led = XInit.out /\ scr = Pre /\ done = FALSE

N == Cardinality(DOMAIN x.ob)
Free(o) == \A b \in DOMAIN x.bf : \A i \in DOMAIN x.bf[b].it : x.bf[b].it[i] # o
Live == {o \in DOMAIN x.ob : x.ob[o].q > 0}
S(o) == "#" \o ToString(o)
Do(y, line) == x' = Flush(y) /\ led' = led \o y.out /\ scr' = Append(scr, line) /\ UNCHANGED done
Half(q) == q \div 2

Ext == \E a \in Live : \E all \in BOOLEAN :
         /\ Free(a)
         /\ LET q == IF all THEN x.ob[a].q ELSE Half(x.ob[a].q) IN
            Do(Extract(x, a, N + 1, q, q < x.ob[a].q), "ext " \o S(a) \o " " \o ToString(q))
ExtC == \E a \in Live : Free(a) /\ CanExtractComp(x, a, 500, 1, -10)
         /\ Do(ExtractComp(x, a, N + 1, 500, 1, TRUE), "extc " \o S(a) \o " 500 c0")
Abs2 == \E a, b \in Live : a # b /\ Free(a) /\ Free(b) /\ Do(Absorb(x, a, b), "abs " \o S(a) \o " " \o S(b))
Tra == \E a \in Live : Free(a) /\ Do(Transmute(x, a, 2), "tra " \o S(a) \o " c1")
Chp == \E a \in Live : \E p \in {"k0", NoPkg} :
         /\ Free(a) /\ (p = NoPkg \/ FitsPkg(P0, x.ob[a].q, 0))
         /\ Do(Repackage(x, a, p), "chp " \o S(a) \o " " \o (IF p = NoPkg THEN "-" ELSE p))
Pack == \E a \in Live : Free(a) /\ LET qs == FillSeq(P0, x.ob[a].q) IN
         /\ qs # <<>> /\ Len(qs) <= 3
         /\ Do(FoldLeft(LAMBDA y, i : PackageExtract(y, a, N + i, qs[i], "k0", i < Len(qs) \/ qs[i] < y.ob[a].q), x, [i \in 1..Len(qs) |-> i]),
               "pk " \o S(a) \o " k0")
Push == \E a \in Live : Free(a) /\ x.ob[a].q <= BufSpace(x, 1) /\ Do(Insert(x, 1, a), "push 0 " \o S(a))
Pop == x.bf[1].it # <<>> /\ Do(DropN(x, 1, 1), "pop 0")
PopQ == LET it == x.bf[1].it IN
        /\ it # <<>> /\ x.ob[it[1]].q > 1000
        /\ Do(Extract(x, it[1], N + 1, 1000, TRUE), "popv 0 1000")
Next == \/ /\ ~done /\ Len(scr) < Len(Pre) + MaxOps
           /\ (Ext \/ ExtC \/ Abs2 \/ Tra \/ Chp \/ Pack \/ Push \/ Pop \/ PopQ)
        \/ /\ ~done /\ Len(scr) = Len(Pre) + MaxOps /\ done' = TRUE
           /\ Emit => PrintT("BEHAVIOUR " \o ToJson(scr))
           /\ UNCHANGED <<x, led, scr>>
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Total == SumSeq([o \in 1..N |-> Sum3(x.ob[o].m)])
MassConserved == Total = 5000
QtyIsMass == \A o \in 1..N : x.ob[o].q = Sum3(x.ob[o].m)
StatesNamedOnce == \A i, j \in DOMAIN led : i # j => led[i].st # led[j].st
ParentsFirst == \A i \in DOMAIN led : \A p \in {led[i].p1, led[i].p2} \ {0} : \E j \in 1..(i - 1) : led[j].st = p
LastRow(o) == led[CHOOSE i \in DOMAIN led : led[i].o = o /\ \A j \in DOMAIN led : led[j].o = o => j <= i]
LedgerDescribes == \A o \in Live : LET r == LastRow(o) IN
   /\ r.st = x.ob[o].st /\ r.q = x.ob[o].q /\ r.m = x.ob[o].m /\ r.qual = x.ob[o].qual /\ r.pkg = x.ob[o].pkg /\ r.pdt = x.ob[o].pdt
Inv == ObjInv(x) /\ BufInv(x)
Held == BufQty(x, 1) <= x.bf[1].cap
PkgFits == \A o \in Live : x.ob[o].pkg = "k0" => x.ob[o].q <= P0.max \/ ~Free(o) \/ \E i \in DOMAIN led : led[i].o = o /\ led[i].pkg = "k0"
=============================================================================
