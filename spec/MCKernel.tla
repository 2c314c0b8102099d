------------------------------ MODULE MCKernel ------------------------------
(* Exhaustive exploration of the kernel with a nondeterministic environment: *)
(* any live agent may, inside its own callback, order builds and             *)
(* decommissionings, ask for a snapshot or end the run.                      *)
EXTENDS Kernel, Json

CONSTANTS Dur, MaxActs, MaxAgents
Lives == {-1, 1, 2}
VARIABLES k, cur, acts, ghost

mcvars == <<k, cur, acts, ghost>>

Protos == ("I" :> [kind |-> "Inst", life |-> -1, spec |-> "i", inv |-> <<>>]) @@
          ("G" :> [kind |-> "Facility", life |-> -1, spec |-> "f", inv |-> <<>>]) @@
          ("F" :> [kind |-> "Facility", life |-> 1, spec |-> "f", inv |-> <<>>])

(* ghost: per agent <<ticks, tocks, decisions, exit time>>, builds ordered, builds done *)
NoCount == [tick |-> 0, tock |-> 0, dec |-> 0, exit |-> -1]

MCInit ==
  /\ \E life \in Lives :
       LET k0 == [KernelInit EXCEPT !.dur = Dur, !.pr = [Protos EXCEPT !["F"].life = life]]
           k1 == AddAgent(AddAgent(k0, "I", 0), "F", 1)
       IN  k = Start(k1)
  /\ cur = <<"none", 0>>
  /\ acts = <<>>
  /\ ghost = [c |-> <<NoCount, NoCount>>, ordered |-> 0, future |-> 0, built |-> 0]

Phase == Phases[k.ph]

CallbackStep ==
  /\ k.mode = "run" /\ Phase \in {"tick", "reqm", "reqp", "tock", "dec"}
  /\ \E a \in k.pend :
       /\ LET k1 == [k EXCEPT !.pend = @ \ {a}]
              due == IF Phase = "tock" /\ k.ag[a].kind = "Inst" THEN Expired(k, a) ELSE {}
              RECURSIVE All(_, _)
              All(x, S) == IF S = {} THEN x
                           ELSE LET b == CHOOSE b \in S : \A c \in S : b <= c
                                IN All(SchedDecom(x, b, -1), S \ {b})
          IN  k' = All(k1, due)
       /\ cur' = <<Phase, a>>
       /\ ghost' = IF Phase \in {"tick", "tock", "dec"}
                   THEN [ghost EXCEPT !.c[a] = [@ EXCEPT ![Phase] = @ + 1]] ELSE ghost
  /\ UNCHANGED acts

SnapStep ==
  /\ \/ k.mode = "run" /\ Phase = "snap" /\ k.pend # {}
     \/ k.mode = "fin" /\ k.pend # {}
  /\ k' = [k EXCEPT !.pend = {}]
  /\ cur' = <<"none", 0>>
  /\ UNCHANGED <<acts, ghost>>

BuildStep ==
  /\ k.mode = "run" /\ Phase = "build" /\ k.due # <<>>
  /\ LET b == Head(k.due) IN k' = [AddAgent(k, b[2], b[3]) EXCEPT !.due = Tail(@)]
  /\ ghost' = [ghost EXCEPT !.c = Append(@, NoCount), !.built = @ + 1]
  /\ cur' = <<"none", 0>>
  /\ UNCHANGED acts

DecomStep ==
  /\ k.mode = "run" /\ Phase = "decom" /\ k.due # <<>>
  /\ LET a == Head(k.due)[1] IN
       /\ k.ag[a].alive
       /\ k' = RemoveAgent([k EXCEPT !.due = Tail(@)], a)
       /\ ghost' = [ghost EXCEPT !.c[a] = [@ EXCEPT !.exit = k.t]]
  /\ cur' = <<"none", 0>>
  /\ UNCHANGED acts

AdvanceStep ==
  /\ k.mode = "run" /\ Settled(k)
  /\ k' = NextPhase(k)
  /\ cur' = <<"none", 0>>
  /\ UNCHANGED <<acts, ghost>>

FinishStep ==
  /\ k.mode = "fin" /\ k.pend = {}
  /\ k' = [k EXCEPT !.mode = "done"]
  /\ cur' = <<"none", 0>>
  /\ UNCHANGED <<acts, ghost>>

(* the environment acts inside a callback (never during the product exchange) *)
EnvStep ==
  /\ k.mode = "run" /\ cur[1] \in {"tick", "reqm", "tock", "dec"} /\ Len(acts) < MaxActs
  /\ \/ \E p \in {"F", "G"}, at \in {-1, k.t, k.t + 1, k.t + 2} :
          /\ Len(k.ag) + Len(k.bq) < MaxAgents
          /\ k' = SchedBuild(k, p, 1, at)
          /\ acts' = Append(acts, <<k.t, cur[1], cur[2], "sb", p, 1, at>>)
          /\ ghost' = [ghost EXCEPT !.ordered = IF SchedBuildOk(k, at) /\ SchedBuildAt(k, at) < Dur THEN @ + 1 ELSE @]
     \/ \E a \in 2..Len(k.ag), at \in {-1, k.t - 1, k.t, k.t + 1} :
          /\ k.ag[a].alive
          /\ k' = SchedDecom(k, a, at)
          /\ acts' = Append(acts, <<k.t, cur[1], cur[2], "sd", a, at>>)
          /\ UNCHANGED ghost
     \/ /\ ~k.kill /\ k' = [k EXCEPT !.kill = TRUE]
        /\ acts' = Append(acts, <<k.t, cur[1], cur[2], "kill">>)
        /\ UNCHANGED ghost
     \/ /\ ~k.wsnap /\ k' = [k EXCEPT !.wsnap = TRUE]
        /\ acts' = Append(acts, <<k.t, cur[1], cur[2], "snap">>)
        /\ UNCHANGED ghost
  /\ UNCHANGED cur

MCNext == CallbackStep \/ SnapStep \/ BuildStep \/ DecomStep \/ AdvanceStep \/ FinishStep \/ EnvStep
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(CallbackStep \/ SnapStep \/ BuildStep \/ DecomStep \/ AdvanceStep \/ FinishStep)

View == <<k, cur, Len(acts), ghost>>

Inv == KInv(k)

(* at the start of each step every live agent has had exactly one tick, tock and decision *)
(* per step since it entered; agents that left had theirs through their last step        *)
EveryStepOnce ==
  (k.mode \in {"run", "fin", "done"} /\ (k.mode = "run" => k.ph = 1)) =>
     \A a \in Agents(k) :
        LET n == (IF k.ag[a].alive THEN k.t ELSE ghost.c[a].exit + 1) - k.ag[a].enter IN
        ghost.c[a].tick = n /\ ghost.c[a].tock = n /\ ghost.c[a].dec = n

(* every accepted order in range is executed once (unless the run was ended early) *)
OrdersExecuted == (k.mode = "done" /\ ~k.kill) => ghost.built = ghost.ordered
(* a kill request ends the run with the step it was made in *)
KillEnds == (k.mode = "done" /\ k.kill) => k.t <= Dur
(* no agent outlives its lifetime, unless an explicit order made after its retirement *)
(* was scheduled postponed it                                                        *)
LifetimeRespected ==
  k.mode = "done" => \A a \in Agents(k) :
     (k.ag[a].alive /\ k.ag[a].life # -1 /\ k.ag[a].par = 1) =>
        (ExitTime(k.ag[a]) >= k.t \/ \E i \in DOMAIN k.dq : k.dq[i][1] = a)

Terminates == <>(k.mode = "done")

Emit == (k.mode = "done") => PrintT("BEHAVIOUR " \o ToJson([life |-> k.pr["F"].life, dur |-> Dur, acts |-> acts]))
=============================================================================
