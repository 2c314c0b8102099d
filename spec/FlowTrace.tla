----------------------------- MODULE FlowTrace -----------------------------
EXTENDS Flow, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, s, err
vars == <<h, l, s, err>>
Good(x) == [s |-> x, err |-> <<>>]
Bad(x, why) == [s |-> x, err |-> why]
Named(e, n) == Cardinality({i \in 1..Len(e.enter) : e.enter[i].p = n})
Idx(x, n) == CHOOSE i \in 1..Len(x.ps) : x.ps[i].name = n
Apply(x, e) ==
  CASE e.op = "file" -> Good([S0 EXCEPT !.ps = e.m.ps, !.due = [i \in 1..Len(e.m.ps) |-> e.m.ps[i].n]])
    [] e.op = "ran" -> (IF e.res = "ok" THEN Good(x) ELSE Bad(x, <<"run-failed", e.res>>))
    [] e.op = "finish" -> (IF e.n = 1 /\ e.t = x.t - 1 /\ ~e.early THEN Good(x) ELSE Bad(x, <<"finish", e, x.t>>))
    [] e.op = "fin" -> Good(x)
    [] e.op = "step" ->
       IF e.t # x.t THEN Bad(x, <<"time", x.t, e.t>>)
       ELSE IF \E i \in 1..Len(e.enter) : ~\E j \in 1..Len(x.ps) : x.ps[j].name = e.enter[i].p THEN Bad(x, <<"unknown-prototype", e.enter>>)
       ELSE IF \E j \in 1..Len(x.ps) : Named(e, x.ps[j].name) # x.due[j] THEN Bad(x, <<"entered", e.enter, x.due>>)
       ELSE IF \E i \in 1..Len(e.enter) : e.enter[i].life # x.ps[Idx(x, e.enter[i].p)].life THEN Bad(x, <<"lifetime", e.enter>>)
       ELSE IF \E i \in 1..Len(e.enter) : (e.enter[i].par >= 0) # (x.t = 0) THEN Bad(x, <<"parent", e.enter>>)
       ELSE LET ids == {e.enter[i].id : i \in 1..Len(e.enter)} IN
       IF ids \cap DOMAIN x.ag # {} \/ Cardinality(ids) # Len(e.enter) THEN Bad(x, <<"ids", e.enter>>)
       ELSE LET y == Enter(x, [a \in ids |-> LET n == CHOOSE i \in Range(e.enter) : i.id = a IN Agent(x, Idx(x, n.p), x.t = 0)])
                pairs == {<<e.tr[i].s, e.tr[i].r>> : i \in 1..Len(e.tr)}
                T == [z \in pairs |-> SumOver([i \in 1..Len(e.tr) |-> IF <<e.tr[i].s, e.tr[i].r>> = z THEN e.tr[i].q ELSE 0], 1..Len(e.tr))]
                w == TradesWrong(y, T) IN
       IF \E i \in 1..Len(e.tr) : e.tr[i].q <= 0 THEN Bad(x, <<"quantity", e.tr>>)
       ELSE IF w # <<>> THEN Bad(x, w)
       ELSE IF \E i \in 1..Len(e.tr) : e.tr[i].c # SupC(y, e.tr[i].s) THEN Bad(x, <<"commodity", e.tr>>)
       ELSE IF \E i \in 1..Len(e.tr) : e.tr[i].w # Stuff(y, e.tr[i].s, e.tr[i].r)
       THEN LET i == CHOOSE i \in 1..Len(e.tr) : e.tr[i].w # Stuff(y, e.tr[i].s, e.tr[i].r) IN Bad(x, <<"contents", e.tr[i], Stuff(y, e.tr[i].s, e.tr[i].r)>>)
       ELSE LET z == Trade(y, T)
                out == {e.exit[i] : i \in 1..Len(e.exit)}
                inv == [a \in DOMAIN z.ag |-> IF \E i \in 1..Len(e.inv) : e.inv[i].id = a THEN (CHOOSE i \in Range(e.inv) : i.id = a).q ELSE 0]
                off == {a \in DOMAIN z.ag : z.ag[a].seen >= 0 /\ inv[a] # z.ag[a].seen} IN
       IF out # Leaves(z) \/ Len(e.exit) # Cardinality(out) THEN Bad(x, <<"left", e.exit, Leaves(z)>>)
       ELSE IF \E a \in off : a \notin out THEN LET a == CHOOSE a \in off : a \notin out IN Bad(x, <<"inventory", a, inv[a], z.ag[a].seen>>)
       ELSE Good(Close(z))
    [] OTHER -> Bad(x, <<"unexplained", e>>)
TraceInit == h \in 1..Len(Hist) /\ l = 0 /\ s = S0 /\ err = <<>>
TraceNext == /\ err = <<>> /\ l < Len(Hist[h].ev)
             /\ LET r == Apply(s, Hist[h].ev[l + 1]) IN s' = r.s /\ err' = r.err
             /\ l' = l + 1 /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == err = <<>>
=============================================================================
