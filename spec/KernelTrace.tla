---------------------------- MODULE KernelTrace -----------------------------
(* Recorded executions of the real kernel, replayed through Kernel's        *)
(* operators.  Each history is one initial state; err names the clause that *)
(* failed.                                                                  *)
EXTENDS Kernel, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES h, l, k, err
vars == <<h, l, k, err>>

Good(x) == [k |-> x, err |-> <<>>]
Bad(x, why) == [k |-> x, err |-> why]
Chk(c, x, why) == IF c THEN Good(x) ELSE Bad(x, why)

(* advance silently to phase p of step t; stops where something is owed *)
RECURSIVE AdvanceTo(_, _, _)
AdvanceTo(x, t, p) ==
  IF x.mode # "run" \/ (x.t = t /\ Phases[x.ph] = p) \/ ~Settled(x) THEN x
  ELSE AdvanceTo(NextPhase(x), t, p)

RECURSIVE AdvanceFin(_)
AdvanceFin(x) == IF x.mode # "run" \/ ~Settled(x) THEN x ELSE AdvanceFin(NextPhase(x))

At(x, e, p) == /\ x.mode = "run" /\ x.t = e.t /\ Phases[x.ph] = p /\ x.exp = <<>>

(* ---- events of the callbacks ---- *)
Callback(x0, e, p) ==
  LET x == AdvanceTo(x0, e.t, p) IN
  IF ~At(x, e, p) THEN Bad(x, <<"phase-order", e, "still owed", x.t, x.ph, x.pend, x.due, x.exp>>)
  ELSE IF e.a \notin x.pend THEN Bad(x, <<"callback-not-due", e, x.pend>>)
  ELSE Good([x EXCEPT !.pend = @ \ {e.a}])

EntryRow(x, a) == [op |-> "row_entry", a |-> a, kind |-> x.ag[a].kind, spec |-> x.ag[a].spec,
                   proto |-> x.ag[a].proto, par |-> x.ag[a].par, life |-> x.ag[a].life, t |-> x.t]

Enter(x0, e) ==
  LET x == IF x0.mode = "pre" THEN x0 ELSE AdvanceTo(x0, e.t, "build") IN
  IF x.exp # <<>> THEN Bad(x, <<"missing", x.exp>>)
  ELSE IF x.mode = "run" /\ ~At(x, e, "build") THEN Bad(x, <<"phase-order", e, x.t, x.ph, x.due>>)
  ELSE IF x.mode = "run" /\ (x.due = <<>> \/ Head(x.due) # <<e.t, e.proto, e.par>>)
       THEN Bad(x, <<"build-not-scheduled", e, x.due>>)
  ELSE IF x.mode \notin {"pre", "run"} THEN Bad(x, <<"enter-after-end", e>>)
  ELSE IF e.proto \notin DOMAIN x.pr THEN Bad(x, <<"unknown-prototype", e>>)
  ELSE LET y == AddAgent(x, e.proto, e.par)
           a == Len(y.ag)
           r == y.ag[a]
           z == [y EXCEPT !.exp = <<EntryRow(y, a)>> \o
                             (IF e.par = 0 THEN <<>>
                              ELSE <<[op |-> "bnotify", p |-> e.par, a |-> a, t |-> y.t]>>),
                          !.due = IF x.mode = "run" THEN Tail(@) ELSE @]
       IN  Chk(e.a = a /\ e.kind = r.kind /\ e.spec = r.spec /\ e.life = r.life /\ e.et = x.t /\ e.t = x.t,
               z, <<"agent-differs-from-prototype", e, r>>)

Expected(x, e) ==
  IF x.exp = <<>> THEN Bad(x, <<"unexpected", e>>)
  ELSE Chk(Head(x.exp) = e, [x EXCEPT !.exp = Tail(@)], <<"expected", Head(x.exp), "got", e>>)

DecomEvents(x, a) ==
  (IF x.ag[a].par = 0 THEN <<>> ELSE <<[op |-> "dnotify", p |-> x.ag[a].par, a |-> a, t |-> x.t]>>)
  \o << [op |-> "decom", a |-> a, t |-> x.t], [op |-> "row_exit", a |-> a, t |-> x.t] >>

(* a decommissioning starts with the parent's notification (or, for roots, directly) *)
DecomStart(x0, e) ==
  IF x0.exp # <<>> THEN Expected(x0, e)
  ELSE LET x == AdvanceTo(x0, e.t, "decom") IN
       IF ~At(x, e, "decom") THEN Bad(x, <<"phase-order", e, x.t, x.ph, x.due>>)
       ELSE IF x.due = <<>> THEN Bad(x, <<"decommission-not-scheduled", e>>)
       ELSE LET a == Head(x.due)[1] IN
            IF ~x.ag[a].alive THEN Bad(x, <<"decommission-of-dead-agent", e>>)
            ELSE Expected([x EXCEPT !.due = Tail(@), !.exp = DecomEvents(x, a)], e)

Decom(x0, e) ==
  LET r == DecomStart(x0, e) IN
  IF r.err # <<>> THEN r ELSE Good(RemoveAgent(r.k, e.a))

(* ---- snapshots, finish ---- *)
RowSnap(x0, e) ==
  LET x == IF x0.mode = "run" THEN AdvanceTo(x0, e.t, "snap") ELSE x0 IN
  IF ~((x.mode = "run" /\ At(x, e, "snap")) \/ (x.mode = "fin" /\ x.t = e.t)) THEN Bad(x, <<"snapshot-at-wrong-time", e, x.t, x.ph, x.pend>>)
  ELSE IF 0 \notin x.pend \/ -1 \in x.pend THEN Bad(x, <<"snapshot-not-due", e, x.pend>>)
  ELSE Good([x EXCEPT !.pend = @ \ {0}])

Snapped(x, e) ==
  IF ~(x.t = e.t /\ ((x.mode = "run" /\ x.ph = 1) \/ x.mode = "fin")) THEN Bad(x, <<"agent-snapshot-at-wrong-time", e, x.t, x.ph>>)
  ELSE IF 0 \in x.pend \/ e.a \notin x.pend THEN Bad(x, <<"agent-snapshot-not-due", e, x.pend>>)
  ELSE Good([x EXCEPT !.pend = @ \ {e.a}])

RowFinish(x0, e) ==
  LET x == AdvanceFin(x0) IN
  IF x.mode # "fin" THEN Bad(x, <<"finished-early", e, x.t, x.ph, x.pend, x.exp>>)
  ELSE IF -1 \notin x.pend THEN Bad(x, <<"second-finish", e>>)
  ELSE Chk(e.early = x.kill /\ e.end = x.t - 1, [x EXCEPT !.pend = @ \ {-1}],
           <<"finish-row", e, x.kill, x.t - 1>>)

FamRec(x, a) == [a |-> a, par |-> x.ag[a].par, life |-> x.ag[a].life,
                 enter |-> x.ag[a].enter, exit |-> ExitTime(x.ag[a])]
FamOk(x, fam) ==
  /\ {fam[i].a : i \in DOMAIN fam} = Live(x)
  /\ \A i \in DOMAIN fam :
        LET f == fam[i] IN
        /\ [a |-> f.a, par |-> f.par, life |-> f.life, enter |-> f.enter, exit |-> f.exit] = FamRec(x, f.a)
        /\ f.pid = f.par
        /\ {f.ch[j] : j \in DOMAIN f.ch} = Children(x, f.a)
        /\ {f.anc[j] : j \in DOMAIN f.anc} = Above(x, f.a)
        /\ {f.dec[j] : j \in DOMAIN f.dec} = Below(x, f.a)
        /\ {f.rel[j] : j \in DOMAIN f.rel} = {f.a} \cup Above(x, f.a) \cup Below(x, f.a)

(* the printed tree names every agent below, each on its level *)
TreeOk(x, a, lines) ==
  /\ Len(lines) = Cardinality(Below(x, a))
  /\ \A d \in 1..Len(lines) : \A p \in DOMAIN x.pr :
        Cardinality({i \in DOMAIN lines : lines[i].d = d /\ lines[i].p = p})
          = Cardinality({b \in Below(x, a) : Depth(x, a, b) = d /\ x.ag[b].proto = p})

End(x, e) ==
  IF e.res = "err"
  THEN (* the run may only abort on a build of an unknown prototype *)
       LET y == AdvanceTo(x, x.t, "build") IN
       Chk(y.mode = "run" /\ y.exp = <<>> /\ Phases[y.ph] = "build" /\ y.due # <<>> /\ Head(y.due)[2] \notin DOMAIN y.pr,
           [y EXCEPT !.mode = "done"], <<"run-aborted", e, x.t, x.ph, x.pend>>)
  ELSE IF x.mode # "fin" \/ x.pend # {} \/ x.exp # <<>> THEN Bad(x, <<"run-ended-with-work-owed", e, x.mode, x.pend, x.exp>>)
  ELSE Chk(e.t = x.t /\ FamOk(x, e.fam), [x EXCEPT !.mode = "done"], <<"final-state", e, x.ag, x.t>>)

(* ---- tock of an institution also retires expired children ---- *)
RECURSIVE ApplyDecomRows(_, _)
ApplyDecomRows(x, rs) == IF rs = <<>> THEN x ELSE ApplyDecomRows(SchedDecom(x, Head(rs).a, Head(rs).at), Tail(rs))

Tock(x0, e) ==
  LET r == Callback(x0, e, "tock") IN
  IF r.err # <<>> THEN r
  ELSE LET x == r.k
           due == IF x.ag[e.a].kind = "Inst" THEN Expired(x, e.a) ELSE {}
           got == {e.rows[i] : i \in DOMAIN e.rows}
       IN  Chk(got = {[op |-> "row_sd", a |-> a, t |-> x.t, at |-> x.t] : a \in due} /\ Len(e.rows) = Cardinality(due),
               ApplyDecomRows(x, e.rows), <<"lifetime-retirement", e, due>>)

(* ---- scripted API calls made from inside callbacks ---- *)
CallPlace(x, e) == /\ x.exp = <<>>
                   /\ x.t = e.t
                   /\ x.mode \in {"pre", "run"}

Call(x, e) ==
  IF ~CallPlace(x, e) THEN Bad(x, <<"call-out-of-place", e, x.t, x.mode, x.exp>>)
  ELSE CASE e.op = "sb" ->
              LET ok == SchedBuildOk(x, e.at) IN
              Chk(/\ e.res = (IF ok THEN "ok" ELSE "value")
                  /\ e.rows = (IF ok THEN << [op |-> "row_sb", par |-> e.par, proto |-> e.proto, t |-> x.t, at |-> SchedBuildAt(x, e.at)] >> ELSE <<>>),
                  SchedBuild(x, e.proto, e.par, e.at), <<"schedule-build", e>>)
         [] e.op = "sd" ->
              LET ok == SchedDecomOk(x, e.at) IN
              Chk(/\ e.res = (IF ok THEN "ok" ELSE "value")
                  /\ e.rows = (IF ok THEN << [op |-> "row_sd", a |-> e.a, t |-> x.t, at |-> SchedDecomAt(x, e.at)] >> ELSE <<>>),
                  SchedDecom(x, e.a, e.at), <<"schedule-decommission", e>>)
         [] e.op = "kill" -> Good([x EXCEPT !.kill = TRUE])
         [] e.op = "snap" -> Good([x EXCEPT !.wsnap = TRUE])
         [] e.op = "hold" -> Good([x EXCEPT !.hold = (e.a :> e.until) @@ @])
         [] e.op = "rereg" -> Good(x)
         [] e.op = "cnt" ->
              Chk(/\ e.n = Cardinality({a \in Live(x) : x.ag[a].proto = e.proto})
                  /\ e.ns = Cardinality({a \in Live(x) : x.ag[a].spec = e.spec}),
                  x, <<"registry-count", e, {a \in Live(x) : x.ag[a].proto = e.proto}>>)
         [] e.op = "life" ->
              LET n == ForcedLife(x, e.a, e.n) IN
              Chk(e.res = "ok" /\ e.now = n, [x EXCEPT !.ag[e.a].life = n], <<"lifetime-force", e, n>>)
         [] e.op = "lifes" ->
              Chk(e.res = "value" /\ e.now = x.ag[e.a].life, x, <<"lifetime-changed-on-deployed-agent", e>>)
         [] e.op = "tree" -> Chk(TreeOk(x, e.a, e.lines), x, <<"printed-tree", e, x.ag>>)
         [] e.op = "fam" -> Chk(FamOk(x, e.fam), x, <<"family-tree", e, x.ag>>)
         [] e.op = "proto" ->
              LET dup == e.name \in DOMAIN x.pr /\ ~e.ow IN
              Chk(e.res = (IF dup THEN "key" ELSE "ok"),
                  IF dup THEN x ELSE [x EXCEPT !.pr = (e.name :> [kind |-> e.kind, life |-> e.life, spec |-> e.spec, inv |-> <<>>]) @@ @],
                  <<"add-prototype", e>>)

InvRow(x0, e) ==
  LET x == AdvanceTo(x0, e.t, "inv")
      r == IF e.op = "row_inv" THEN <<"row_inv", e.a, e.inv, e.nuc, e.q>>
           ELSE LET m(nn) == LET S == {i \in DOMAIN e.comp : e.comp[i][1] = nn} IN
                             IF S = {} THEN 0 ELSE e.comp[CHOOSE i \in S : TRUE][2]
                IN <<"row_invc", e.a, e.inv, e.q, m(92235), m(92238)>>
  IN IF ~At(x, e, "inv") THEN Bad(x, <<"phase-order", e, x.t, x.ph, x.pend>>)
     ELSE Chk(r \in x.pend, [x EXCEPT !.pend = @ \ {r}], <<"explicit-inventory", e, x.pend>>)

Apply(x, e) ==
  CASE e.op = "sim" -> Good([x EXCEPT !.dur = e.dur, !.ex = e.ex])
    [] e.op = "addproto" -> Good([x EXCEPT !.pr = (e.name :> [kind |-> e.kind, life |-> e.life, spec |-> e.spec, inv |-> e.inv]) @@ @])
    [] e.op = "run" -> Chk(x.exp = <<>>, Start(x), <<"missing", x.exp>>)
    [] e.op = "enter" -> Enter(x, e)
    [] e.op \in {"row_entry", "bnotify", "row_exit"} -> Expected(x, e)
    [] e.op = "dnotify" -> DecomStart(x, e)
    [] e.op = "decom" -> Decom(x, e)
    [] e.op \in {"tick", "reqm", "reqp", "dec"} -> Callback(x, e, e.op)
    [] e.op = "tock" -> Tock(x, e)
    [] e.op \in {"row_inv", "row_invc"} -> InvRow(x, e)
    [] e.op = "row_snap" -> RowSnap(x, e)
    [] e.op = "snapped" -> Snapped(x, e)
    [] e.op = "row_finish" -> RowFinish(x, e)
    [] e.op = "end" -> End(x, e)
    [] e.op \in {"sb", "sd", "kill", "snap", "hold", "rereg", "cnt", "life", "lifes", "fam", "tree", "proto"} -> Call(x, e)
    [] OTHER -> Bad(x, <<"unexplained", e>>)

TraceInit == /\ h \in 1..Len(Hist) /\ l = 0 /\ k = KernelInit /\ err = <<>>

TraceNext ==
  /\ err = <<>>
  /\ l < Len(Hist[h].ev)
  /\ LET r == Apply(k, Hist[h].ev[l + 1]) IN
       /\ k' = r.k
       /\ err' = IF r.err = <<>> /\ l + 1 = Len(Hist[h].ev) /\ r.k.mode # "done"
                 THEN <<"history-incomplete", r.k.mode>> ELSE r.err
  /\ l' = l + 1
  /\ h' = h

TraceSpec == TraceInit /\ [][TraceNext]_vars

Accepted == err = <<>>
KernelInvariant == KInv(k)
=============================================================================
