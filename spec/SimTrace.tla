----------------------------- MODULE SimTrace -----------------------------
(* Recorded executions of the real loaders, initialisation, time loop and restart. *)
EXTENDS Sim, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l, k, err
vars == <<h, l, k, err>>

K0 == [ph |-> "none", m |-> [ok |-> TRUE], y |-> Y0, now |-> -1, seen |-> TRUE, ticked |-> {}, used |-> {}, snaps |-> <<>>,
       orig |-> <<>>, rows |-> <<>>, info |-> <<>>, re |-> FALSE, from |-> 0, pos |-> 0, endt |-> -1, done |-> FALSE]
Good(y) == [k |-> y, err |-> <<>>]
Bad(y, why) == [k |-> y, err |-> why]

InfoKeys == {"dur", "y0", "m0", "handle", "decay", "dt", "seed", "stride", "eps", "epsr", "geps", "gepsr", "ei", "eic"}
Sub(e, K) == [x \in K |-> e[x]]
AgOk(y, q) == Len(q) = Cardinality(DOMAIN y.ag) /\ \A i \in DOMAIN q : q[i].id \in DOMAIN y.ag /\ y.ag[q[i].id] = q[i]
NpOk(y, q) == SeqSet(q) = Counts(y)

DiffAg(y, q) == LET G == ById(q) IN <<"missing", DOMAIN y.ag \ DOMAIN G, "extra", DOMAIN G \ DOMAIN y.ag,
    {<<y.ag[i], G[i]>> : i \in {j \in DOMAIN y.ag \cap DOMAIN G : y.ag[j] # G[j]}}>>

RecipeOk(r, g) == g.name = r.name /\ (IF r.basis = "mass" THEN g.mass = r.w ELSE g.atom = r.w)
InfoBad(s, e) ==
  LET m == s.m  c == Control(m) IN
  IF \E x \in InfoKeys : e[x] # c[x] THEN <<"control", {<<x, e[x], c[x]>> : x \in {z \in InfoKeys : e[z] # c[z]}}>>
  ELSE IF Len(e.recipes) # Len(m.recipes) \/ \E i \in DOMAIN m.recipes : ~RecipeOk(m.recipes[i], e.recipes[i]) THEN <<"recipes", e.recipes, m.recipes>>
  ELSE IF e.pkgs # Packages(m) THEN <<"packages", e.pkgs, Packages(m)>>
  ELSE IF e.tus # Transport(m) THEN <<"transport-units", e.tus, Transport(m)>>
  ELSE IF e.solver # SolverOf(m).kind \/ e.excl # SolverOf(m).excl THEN <<"solver", e.solver, e.excl, SolverOf(m)>>
  ELSE IF e.solver = "greedy" /\ e.order # Served(m) THEN <<"commodity-priority", e.order, Served(m), m.commods>>
  ELSE <<>>

OpInit(s, e) ==
  LET ag == ById(e.agents)
      bad == InfoBad(s, e)
      paths == Bag([i \in DOMAIN e.agents |-> PathOf(ag, e.agents[i].id)])
      y == [Y0 EXCEPT !.ag = ag]
  IN IF bad # <<>> THEN Bad(s, bad)
     ELSE IF Cardinality(DOMAIN ag) # Len(e.agents) THEN Bad(s, <<"agent-ids", e.agents>>)
     ELSE IF paths # Bag(s.m.paths) THEN Bad(s, <<"agents", paths, Bag(s.m.paths)>>)
     ELSE IF \E i \in DOMAIN ag : Static(ag[i]) # Fresh(s.m, ag[i].proto) THEN Bad(s, <<"agent-state", {<<Static(ag[i]), Fresh(s.m, ag[i].proto)>> : i \in {j \in DOMAIN ag : Static(ag[j]) # Fresh(s.m, ag[j].proto)}}>>)
     ELSE IF \E i \in DOMAIN ag : ag[i].et # 0 THEN Bad(s, <<"enter-time", e.agents>>)
     ELSE IF ~NpOk(y, e.np) THEN Bad(s, <<"prototype-count", e.np>>)
     ELSE IF e.t # 0 THEN Bad(s, <<"start-time", e.t>>)
     ELSE Good([s EXCEPT !.ph = "run", !.y = y, !.used = DOMAIN ag, !.now = -1, !.seen = TRUE, !.info = 1])

OpRinit(s, e) ==
  LET bad == InfoBad(s, e)  y == s.snaps[s.from] IN
  IF bad # <<>> THEN Bad(s, <<"restarted">> \o bad)
  ELSE IF ~AgOk(y, e.agents) THEN Bad(s, <<"restarted-agents", DiffAg(y, e.agents)>>)
  ELSE IF ~NpOk(y, e.np) THEN Bad(s, <<"restarted-prototype-count", e.np, Counts(y)>>)
  ELSE IF e.t # s.from \/ e.parent # 1 THEN Bad(s, <<"restarted-time", e.t, e.parent>>)
  ELSE Good([s EXCEPT !.ph = "run", !.y = [y EXCEPT !.want = FALSE], !.now = s.from - 1, !.seen = TRUE])

\* the step before t is over
Behind(s) == Leaving(s.y, s.now) # {} \/ ~s.seen
Turn(s, t) ==   \* begin step t
  LET z == [s EXCEPT !.now = t, !.seen = FALSE, !.ticked = {}]
  IN IF s.y.want /\ ~s.re THEN [z EXCEPT !.snaps = (t :> [s.y EXCEPT !.want = FALSE]) @@ @, !.y.want = FALSE] ELSE [z EXCEPT !.y.want = FALSE]
Silent == {"exit", "tick"}
Same(s, e) ==   \* a restarted run repeats what the original did from here on
  IF e.op \in Silent \/ ~s.re \/ s.from = s.endt THEN TRUE
  ELSE s.pos <= Len(s.orig) /\ s.orig[s.pos] = e
Note(s, e) == IF e.op \in Silent THEN s ELSE IF s.re THEN [s EXCEPT !.pos = @ + 1] ELSE [s EXCEPT !.orig = Append(@, e)]

Setv(y, id, e) == [y EXCEPT !.ag[id].val = e.val, !.ag[id].role = e.role, !.ag[id].txt = e.txt, !.ag[id].num = e.num]
Step(s, e) ==
  LET y == s.y  t == e.t IN
  CASE e.op = "enter" ->
         IF s.seen \/ Due(y, t) = <<>> THEN Bad(s, <<"unexpected-build", e>>)
         ELSE LET b == Due(y, t)[1] IN
              IF e.a.proto # b.proto \/ e.a.par # b.par \/ e.a.et # t THEN Bad(s, <<"wrong-build", e, b>>)
              ELSE IF Static(e.a) # Fresh(s.m, b.proto) THEN Bad(s, <<"built-state", Static(e.a), Fresh(s.m, b.proto)>>)
              ELSE IF e.a.id \in DOMAIN y.ag \/ (~s.re /\ e.a.id \in s.used) THEN Bad(s, <<"agent-id-reused", e>>)
              ELSE Good([s EXCEPT !.y = Enter(y, e.a, t), !.used = @ \cup {e.a.id}])
    [] e.op = "tick" ->
         IF Due(y, t) # <<>> THEN Bad(s, <<"not-built", Due(y, t)>>)
         ELSE IF e.id \notin DOMAIN y.ag \/ e.id \in s.ticked THEN Bad(s, <<"wrong-tick", e>>)
         ELSE Good([s EXCEPT !.ticked = @ \cup {e.id}])
    [] e.op = "sb" -> Good([s EXCEPT !.y = SchedBuild(y, e.par, e.proto, e.at)])
    [] e.op = "sd" -> Good([s EXCEPT !.y = SchedDecom(y, e.id, e.at)])
    [] e.op = "set" -> Good([s EXCEPT !.y = Setv(y, e.id, e)])
    [] e.op = "mk" ->
         IF e.r[3] # e.q \/ e.r[4] # e.pkg THEN Bad(s, <<"made", e>>)
         ELSE IF e.k = "m" THEN Good([s EXCEPT !.y.ag[e.id].mats = Append(@, e.r)])
         ELSE Good([s EXCEPT !.y.ag[e.id].prods = Append(@, e.r)])
    [] e.op \in {"inv", "gave", "got"} -> Good([s EXCEPT !.y.ag[e.id].mats = e.mats, !.y.ag[e.id].prods = e.prods])
    [] e.op = "snap" -> Good([s EXCEPT !.y.want = TRUE])
    [] e.op = "kill" -> Good(s)
    [] e.op = "obs" ->
         IF Due(y, t) # <<>> THEN Bad(s, <<"not-built", Due(y, t)>>)
         ELSE IF s.ticked # DOMAIN y.ag THEN Bad(s, <<"not-ticked", DOMAIN y.ag \ s.ticked>>)
         ELSE IF ~AgOk(y, e.agents) THEN Bad(s, <<"observed-agents", DiffAg(y, e.agents)>>)
         ELSE IF ~NpOk(y, e.np) THEN Bad(s, <<"prototype-count", e.np, Counts(y)>>)
         ELSE Good([s EXCEPT !.y = Retire(y, t), !.seen = TRUE])
    [] e.op = "exit" ->
         IF ~s.seen \/ e.id \notin Leaving(y, t) THEN Bad(s, <<"unexpected-exit", e, y.dq>>)
         ELSE Good([s EXCEPT !.y = Leave(y, e.id)])

OpTimed(s, e) ==
  IF e.t # s.now /\ e.t # s.now + 1 THEN Bad(s, <<"time", e, s.now>>)
  ELSE IF e.t = s.now + 1 /\ Behind(s) THEN Bad(s, <<"not-left", Leaving(s.y, s.now), s.seen, e>>)
  ELSE LET z == IF e.t = s.now THEN s ELSE Turn(s, e.t)
           r == Step(z, e)
       IN IF r.err # <<>> THEN r
          ELSE IF ~Same(s, e) THEN Bad(s, <<"restarted-run-differs", e, "original", IF s.pos <= Len(s.orig) THEN s.orig[s.pos] ELSE "ended">>)
          ELSE Good(Note(r.k, e))

OpEnd(s, e) ==
  IF Behind(s) THEN Bad(s, <<"not-left", Leaving(s.y, s.now), s.seen>>)
  ELSE IF e.t # s.now + 1 THEN Bad(s, <<"end-time", e.t, s.now>>)
  ELSE IF ~AgOk(s.y, e.agents) THEN Bad(s, <<"final-agents", DiffAg(s.y, e.agents)>>)
  ELSE IF s.re /\ s.from # s.endt /\ s.pos # Len(s.orig) + 1 THEN Bad(s, <<"restarted-run-ended-early", s.pos, Len(s.orig)>>)
  ELSE Good(IF s.re THEN [s EXCEPT !.ph = "ended"]
            ELSE [s EXCEPT !.ph = "ended", !.endt = e.t, !.snaps = (e.t :> [s.y EXCEPT !.want = FALSE]) @@ @])

Later(q, t) == SelectSeq(q, LAMBDA x : x.t >= t)
OpRows(s, e) ==
  IF ~s.re THEN Good([s EXCEPT !.rows = (e.tab :> e.rows) @@ @])
  ELSE IF s.from = s.endt THEN Good(s)
  ELSE LET want == Later(s.rows[e.tab], s.from) IN
       IF e.tab \in {"AgentExit", "DecomSchedule", "ExplicitInventory"}
       THEN (IF SeqSet(e.rows) = SeqSet(want) /\ Len(e.rows) = Len(want) THEN Good(s) ELSE Bad(s, <<"restarted-rows", e.tab, e.rows, want>>))
       ELSE IF e.rows = want THEN Good(s) ELSE Bad(s, <<"restarted-rows", e.tab, e.rows, want>>)

First(q, t) == LET I == {i \in DOMAIN q : q[i].t >= t} IN IF I = {} THEN Len(q) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Apply(s, e) ==
  CASE e.op = "file" -> Good([s EXCEPT !.m = e.m, !.ph = "file"])
    [] e.op = "load" -> IF (e.res = "ok") # s.m.ok THEN Bad(s, <<"load-result", e.res, e.why>>) ELSE Good([s EXCEPT !.ph = "loaded"])
    [] e.op = "init" -> OpInit(s, e)
    [] e.op = "end" -> OpEnd(s, e)
    [] e.op = "rows" -> OpRows(s, e)
    [] e.op = "reopen" -> Good(s)
    [] e.op = "restart" -> IF e.at \notin DOMAIN s.snaps THEN Bad(s, <<"no-such-snapshot", e.at>>)
                           ELSE Good([s EXCEPT !.ph = "restart", !.re = TRUE, !.from = e.at, !.pos = First(s.orig, e.at)])
    [] e.op = "restarted" -> IF e.res = "ok" THEN Good(s) ELSE Bad(s, <<"restart-failed", e.why>>)
    [] e.op = "rinit" -> OpRinit(s, e)
    [] e.op = "fin" -> Good([s EXCEPT !.done = TRUE])
    [] e.op = "crash" -> Bad(s, <<"crash", e>>)
    [] OTHER -> OpTimed(s, e)

Init == h \in 1..Len(Hist) /\ l = 0 /\ k = K0 /\ err = <<>>
Next ==
  /\ err = <<>>
  /\ \/ /\ l < Len(Hist[h].ev)
        /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN k' = r.k /\ err' = r.err
        /\ l' = l + 1
     \/ /\ l = Len(Hist[h].ev)
        /\ ~k.done
        /\ err' = <<"did-not-finish">>
        /\ UNCHANGED <<k, l>>
  /\ h' = h
TraceSpec == Init /\ [][Next]_vars
Accepted == err = <<>>
=============================================================================
