------------------------- MODULE ArchetypeTrace -------------------------
(* Recorded executions of preprocessed archetypes.                              *)
EXTENDS Archetype, Json, IOUtils
Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>
K0 == [d |-> [vars |-> <<>>, bufs |-> <<>>], ag |-> <<>>, slot |-> <<>>, done |-> FALSE]
Good(x) == [k |-> x, err |-> <<>>]
Bad(x, why) == [k |-> x, err |-> why]

\* an agent as observed is the agent as it should be
VarBad(d, a, o) == {i \in 1..Len(d.vars) : ~(\E j \in 1..Len(o.vals) : o.vals[j].n = d.vars[i].n /\ Same(d.vars[i].t, a.vals[i], o.vals[j].v))}
BufBad(d, a, o) == {i \in 1..Len(d.bufs) : ~(\E j \in 1..Len(o.bufs) : o.bufs[j].n = d.bufs[i].n /\ o.bufs[j].cap = a.bufs[i].cap /\ o.bufs[j].ids = a.bufs[i].ids)}
Agree(x, e) ==
  IF {e.agents[i].id : i \in 1..Len(e.agents)} # DOMAIN x.ag THEN Bad(x, <<"agents", e.op, DOMAIN x.ag>>)
  ELSE LET bad == {i \in 1..Len(e.agents) : LET o == e.agents[i]
                                                a == x.ag[o.id] IN VarBad(x.d, a, o) # {} \/ BufBad(x.d, a, o) # {} \/ o.life # a.life \/ o.proto # a.proto}
       IN IF bad = {} THEN Good(x)
          ELSE LET o == e.agents[CHOOSE i \in bad : TRUE]
                   a == x.ag[o.id]
                   vb == VarBad(x.d, a, o)
               IN IF vb # {} THEN LET i == CHOOSE i \in vb : TRUE IN Bad(x, <<"value", e.op, o.id, x.d.vars[i].n, x.d.vars[i].t, a.vals[i], o.vals>>)
                  ELSE Bad(x, <<"agent", e.op, a, o>>)
Put(x, id, a) == [x EXCEPT !.ag = (id :> a) @@ @]
Var(d, n) == CHOOSE i \in 1..Len(d.vars) : d.vars[i].n = n
Buf(d, n) == CHOOSE i \in 1..Len(d.bufs) : d.bufs[i].n = n
RECURSIVE Kind(_)
Kind(T) == [k |-> IF T.k = "nuc" THEN "int" ELSE T.k, s |-> [i \in 1..Len(T.s) |-> Kind(T.s[i])]]
Annot(x, e) ==
  LET d == x.d
      real == {i \in 1..Len(e.vars) : e.vars[i].to = ""}
      Is(v, o) == /\ o.n = v.n /\ o.t = Kind(v.t) /\ o.doc = v.doc /\ o.units = v.units
                  /\ o.int = (v.mode = "int") /\ o.hasd = (v.mode # "req")
                  /\ (v.mode # "req" /\ Plain(v.t) /\ v.t.k # "nuc") => o.d = v.d
  IN IF e.res # "ok" THEN Bad(x, <<"annotations", e>>)
     ELSE IF e.entity # d.entity \/ e.doc # d.doc THEN Bad(x, <<"class-annotations", e.entity, e.doc>>)
     ELSE IF {e.vars[i].n : i \in real} # {d.vars[i].n : i \in 1..Len(d.vars)} THEN Bad(x, <<"annotated-variables", {e.vars[i].n : i \in real}>>)
     ELSE LET bad == {i \in 1..Len(d.vars) : ~(\E j \in real : Is(d.vars[i], e.vars[j]))} IN
          IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN Bad(x, <<"annotation", d.vars[i], {e.vars[j] : j \in {z \in real : e.vars[z].n = d.vars[i].n}}>>)
          ELSE Good(x)
Apply(x, e) ==
  CASE e.op = "decl" -> Agree([x EXCEPT !.d = e.decl], e)
    [] e.op = "valid" ->
         LET ok == Acceptable(x.d, e.doc) IN
         IF ok # (e.res = "ok") \/ e.res \notin {"ok", "refused"} THEN Bad(x, <<"schema", ok, e.res, e.doc>>) ELSE Agree(x, e)
    [] e.op = "load" ->
         IF e.res # "ok" THEN Bad(x, <<"not-loaded", e.res, e.doc>>)
         ELSE Agree(Put(x, e.id, FromDb(x.d, Loaded(x.d, e.doc), e.life, e.proto)), e)
    [] e.op = "annot" -> LET r == Annot(x, e) IN IF r.err # <<>> THEN r ELSE Agree(x, e)
    [] e.op = "clone" -> IF ~e.on THEN Agree(x, e) ELSE Agree(Put(x, e.id, Cloned(x.ag[e.from])), e)
    [] e.op = "set" -> IF ~e.on THEN Agree(x, e) ELSE Agree([x EXCEPT !.ag[e.id].vals[Var(x.d, e.var)] = e.val], e)
    [] e.op = "push" -> IF ~e.on \/ e.res # "ok" THEN Agree(x, e) ELSE Agree([x EXCEPT !.ag[e.id].bufs[Buf(x.d, e.buf)].ids = Append(@, e.res_id)], e)
    [] e.op = "snap" ->
         IF ~e.on THEN Agree(x, e)
         ELSE IF e.res # "ok" THEN Bad(x, <<"not-saved", e.res>>)
         ELSE LET s == SavedOf(x.ag[e.id]) IN
              IF \E i \in 1..Len(x.d.bufs) : ~(\E j \in 1..Len(e.inv) : e.inv[j].n = x.d.bufs[i].n /\ e.inv[j].ids = s.inv[i]) THEN Bad(x, <<"inventory", s.inv, e.inv>>)
              ELSE Agree([x EXCEPT !.slot = (e.slot :> s) @@ @], e)
    [] e.op = "restore" ->
         IF e.on # (e.slot \in DOMAIN x.slot) THEN Bad(x, <<"slot", e>>)
         ELSE IF ~e.on THEN Agree(x, e)
         ELSE IF e.res # "ok" THEN Bad(x, <<"not-restored", e.res>>)
         ELSE Agree(Put(x, e.id, Restored(x.d, x.slot[e.slot])), e)
    [] e.op = "end" -> Good([x EXCEPT !.done = TRUE])
    [] e.op = "crash" -> Bad(x, <<"crash", e>>)
Init == h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
Next ==
  /\ err = <<>>
  /\ \/ /\ l < Len(Hist[h].ev)
        /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN k' = r.k /\ err' = r.err
        /\ l' = l + 1
     \/ /\ l = Len(Hist[h].ev)
        /\ ~k.done
        /\ err' = <<"did-not-finish">>
        /\ UNCHANGED <<k, l>>
  /\ h' = h
TraceSpec == Init /\ [][Next]_vars
Accepted == err = <<>>
=============================================================================
