------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* The simulation kernel: the time-step loop, the deployment and           *)
(* decommissioning schedules, agent lifetimes, the family tree, the live   *)
(* registries and the rows recorded about all of them.                     *)
(*                                                                         *)
(* The state is one record `k`; every transition is an operator that maps  *)
(* (k, arguments) to the next k.  MCKernel composes the operators into a   *)
(* Next relation with a nondeterministic environment and model-checks the  *)
(* invariants below; KernelTrace replays recorded executions of the real   *)
(* kernel through the same operators.                                      *)
(*                                                                         *)
(*   k.mode   "pre" before the run, "run", "fin" after the loop, "done"    *)
(*   k.t      current time step           k.dur   duration                 *)
(*   k.ph     index into Phases           k.pend  callbacks and rows this  *)
(*            phase still owes (a set)    k.due   builds/decommissionings  *)
(*                                                still owed, in order     *)
(*   k.exp    events that must come next, in this order                    *)
(*   k.ag     sequence of agent records, in order of entry                 *)
(*   k.pr     prototypes: name -> [kind, life, spec, inv]                  *)
(*   k.bq     pending builds <<at, proto, parent>> in scheduling order     *)
(*   k.dq     pending decommissionings <<agent, at>> in scheduling order   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Phases == << "snap", "build", "tick", "reqm", "reqp", "tock", "inv", "dec", "decom" >>
PhaseNo(p) == CHOOSE i \in 1..Len(Phases) : Phases[i] = p

KernelInit ==
  [mode |-> "pre", t |-> 0, dur |-> 0, ex |-> 0, ph |-> 1, pend |-> {}, due |-> <<>>, exp |-> <<>>,
   ag |-> <<>>, pr |-> <<>>, bq |-> <<>>, dq |-> <<>>, kill |-> FALSE, wsnap |-> FALSE,
   hold |-> <<>>]

Agents(k) == 1..Len(k.ag)
Live(k) == {a \in Agents(k) : k.ag[a].alive}
LiveKind(k, kd) == {a \in Live(k) : k.ag[a].kind = kd}
Children(k, p) == {a \in Live(k) : k.ag[a].par = p}
(* everything above and below an agent in the family tree *)
RECURSIVE Above(_, _)
Above(k, a) == IF k.ag[a].par = 0 THEN {} ELSE {k.ag[a].par} \cup Above(k, k.ag[a].par)
Below(k, a) == {b \in Live(k) : a \in Above(k, b)}
(* how far below *)
RECURSIVE Depth(_, _, _)
Depth(k, a, b) == IF b = a THEN 0 ELSE 1 + Depth(k, a, k.ag[b].par)
ExitTime(r) == IF r.life = -1 THEN -1 ELSE r.enter + r.life - 1
Held(k, a) == /\ a \in DOMAIN k.hold /\ k.t < k.hold[a]
FilterSeq(q, P(_)) == SelectSeq(q, P)

(***************************************************************************)
(* What each phase owes.                                                   *)
(***************************************************************************)
DueBuilds(k) == SelectSeq(k.bq, LAMBDA b : b[1] = k.t)
DueDecoms(k) == SelectSeq(k.dq, LAMBDA d : d[2] = k.t)

(* explicit inventories: one row per agent, inventory and nuclide with the  *)
(* total over the inventory's materials (quantities in grams)               *)
RECURSIVE SumCol(_, _)
SumCol(ms, c) == IF ms = <<>> THEN 0 ELSE Head(ms)[c] + SumCol(Tail(ms), c)
InvRows(k) ==
  IF k.ex = 0 THEN {}
  ELSE UNION { UNION { LET inv == k.ag[a].inv[i]
                           m1 == 1000 * SumCol(inv.m, 1)
                           m2 == 1000 * SumCol(inv.m, 2)
                       IN  IF Len(inv.m) = 0 THEN {}
                           ELSE (IF k.ex \in {1, 3}
                                 THEN (IF m1 > 0 THEN {<<"row_inv", a, inv.name, 92235, m1>>} ELSE {})
                                      \cup (IF m2 > 0 THEN {<<"row_inv", a, inv.name, 92238, m2>>} ELSE {})
                                 ELSE {})
                                \cup
                                (IF k.ex \in {2, 3}
                                 THEN {<<"row_invc", a, inv.name, m1 + m2, m1, m2>>}
                                 ELSE {})
                     : i \in 1..Len(k.ag[a].inv) }
             : a \in Live(k) }

Owes(k, p) ==
  CASE p = "snap"  -> IF k.wsnap THEN {0} \cup Live(k) ELSE {}
    [] p \in {"tick", "tock", "dec"} -> Live(k)
    [] p \in {"reqm", "reqp"} -> LiveKind(k, "Facility")
    [] p = "inv"   -> InvRows(k)
    [] OTHER -> {}
OwesSeq(k, p) ==
  CASE p = "build" -> DueBuilds(k)
    [] p = "decom" -> DueDecoms(k)
    [] OTHER -> <<>>

Settled(k) == /\ k.exp = <<>>
              /\ k.pend = {} /\ k.due = <<>>

(***************************************************************************)
(* Moving to the next phase, step or end of the run; only when Settled.    *)
(***************************************************************************)
EnterPhase(k, i) == [k EXCEPT !.ph = i, !.pend = Owes(k, Phases[i]),
                             !.due = OwesSeq(k, Phases[i])]

NextPhase(k) ==
  IF k.ph < Len(Phases)
  THEN EnterPhase([k EXCEPT !.wsnap = IF k.ph = 1 THEN FALSE ELSE @], k.ph + 1)
  ELSE LET k1 == [k EXCEPT !.t = @ + 1,
                           !.bq = SelectSeq(@, LAMBDA b : b[1] > k.t),
                           !.dq = SelectSeq(@, LAMBDA d : d[2] > k.t)]
       IN  IF k.kill \/ k1.t >= k.dur
           THEN [k1 EXCEPT !.mode = "fin", !.ph = 0, !.pend = {-1, 0} \cup Live(k1)]
           ELSE EnterPhase(k1, 1)

Start(k) == IF k.t >= k.dur
            THEN [k EXCEPT !.mode = "fin", !.ph = 0, !.pend = {-1, 0} \cup Live(k)]
            ELSE EnterPhase([k EXCEPT !.mode = "run"], 1)

(***************************************************************************)
(* Agents entering and leaving.                                            *)
(***************************************************************************)
NewAgent(k, proto, par) ==
  [alive |-> TRUE, proto |-> proto, kind |-> k.pr[proto].kind, spec |-> k.pr[proto].spec,
   par |-> par, life |-> k.pr[proto].life, enter |-> k.t, inv |-> k.pr[proto].inv]

AddAgent(k, proto, par) == [k EXCEPT !.ag = Append(@, NewAgent(k, proto, par))]

RemoveAgent(k, a) ==
  [k EXCEPT !.ag = [b \in DOMAIN @ |->
                      IF b = a THEN [@[b] EXCEPT !.alive = FALSE]
                      ELSE IF @[b].par = a THEN [@[b] EXCEPT !.par = 0] ELSE @[b]],
            !.bq = [i \in DOMAIN @ |-> IF @[i][3] = a THEN <<@[i][1], @[i][2], 0>> ELSE @[i]]]

(***************************************************************************)
(* Scheduling calls.  A build must lie in the future, a decommissioning    *)
(* not in the past; a later decommissioning order replaces an earlier one. *)
(***************************************************************************)
SchedBuildAt(k, at) == IF at = -1 THEN k.t + 1 ELSE at
SchedBuildOk(k, at) == SchedBuildAt(k, at) > k.t
SchedBuild(k, proto, par, at) ==
  IF SchedBuildOk(k, at) THEN [k EXCEPT !.bq = Append(@, <<SchedBuildAt(k, at), proto, par>>)] ELSE k

SchedDecomAt(k, at) == IF at = -1 THEN k.t ELSE at
SchedDecomOk(k, at) == SchedDecomAt(k, at) >= k.t
SchedDecom(k, a, at) ==
  IF SchedDecomOk(k, at)
  THEN [k EXCEPT !.dq = Append(SelectSeq(@, LAMBDA d : d[1] # a), <<a, SchedDecomAt(k, at)>>)]
  ELSE k

(* children of institution p whose lifetime is over at this tock *)
Expired(k, p) == {a \in Children(k, p) : /\ k.ag[a].life # -1
                                         /\ k.t >= ExitTime(k.ag[a])
                                         /\ ~(k.ag[a].kind = "Facility" /\ Held(k, a))}

(* lifetime of a deployed agent forced to n: it cannot end in the past *)
ForcedLife(k, a, n) ==
  IF n # -1 /\ k.ag[a].enter + n <= k.t THEN k.t - k.ag[a].enter + 1 ELSE n

(***************************************************************************)
(* Invariants                                                              *)
(***************************************************************************)
KTypeOK(k) == /\ k.mode \in {"pre", "run", "fin", "done"}
              /\ k.t \in 0..(k.dur + 1)
              /\ k.ph \in 0..Len(Phases)

(* nothing is ever left overdue in a schedule, and nothing is in the past *)
KNoOverdue(k) == /\ \A i \in DOMAIN k.bq : k.bq[i][1] >= k.t
                 /\ \A i \in DOMAIN k.dq : k.dq[i][2] >= k.t
                 /\ (k.mode = "run" /\ k.ph > PhaseNo("build")) =>
                      \A i \in DOMAIN k.bq : k.bq[i][1] >= k.t

(* at most one pending decommissioning per agent, and only of live agents *)
KDecomUnique(k) == \A i, j \in DOMAIN k.dq : k.dq[i][1] = k.dq[j][1] => i = j

KFamily(k) == \A a \in Live(k) : /\ k.ag[a].par # a
                                 /\ k.ag[a].par # 0 => k.ag[k.ag[a].par].alive

(* nothing is scheduled under a parent that has left *)
KParents(k) == \A i \in DOMAIN k.bq : k.bq[i][3] = 0 \/ k.ag[k.bq[i][3]].alive

KInv(k) == KTypeOK(k) /\ KNoOverdue(k) /\ KDecomUnique(k) /\ KFamily(k) /\ KParents(k)
=============================================================================
