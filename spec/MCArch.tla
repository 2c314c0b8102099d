----------------------------- MODULE MCArch -----------------------------
(* Agents of one archetype (a variable that sets a buffer's capacity, a plain   *)
(* variable, a buffer): loading, changing, cloning, saving and restoring in any *)
(* order.  Checked: agents are independent, a clone equals its origin, a        *)
(* restored agent equals the saved one whatever happened in between.            *)
EXTENDS Archetype, Json
CONSTANTS NMax
Ids == {1, 2}
None == [vals |-> <<>>, life |-> 0, proto |-> "", bufs |-> <<>>]
D == [vars |-> <<[n |-> "a", t |-> [k |-> "double", s |-> <<>>]], [n |-> "b", t |-> [k |-> "int", s |-> <<>>]]>>,
      bufs |-> <<[n |-> "u", cap |-> "", capvar |-> "a"]>>]
Val(x) == [v |-> x, s |-> <<>>]
VARIABLES ag, slot, next, tr, ghost
vars == <<ag, slot, next, tr, ghost>>
Init == /\ ag = 1 :> FromDb(D, <<Val("a0"), Val("b0")>>, 3, "p") /\ slot = <<>> /\ next = 1
        /\ tr = <<<<"load", 1>>>> /\ ghost = <<>>
Do(a, x) == tr' = Append(tr, x) /\ ag' = a
Change(i, v) == i \in DOMAIN ag /\ Do([ag EXCEPT ![i].vals[v] = Val(<<"a", "b">>[v] \o ToString(Len(tr)))], <<"set", i, v>>) /\ UNCHANGED <<slot, next, ghost>>
Fill(i) == i \in DOMAIN ag /\ Do([ag EXCEPT ![i].bufs[1].ids = Append(@, next)], <<"push", i>>) /\ next' = next + 1 /\ UNCHANGED <<slot, ghost>>
Copy(i, j) == i # j /\ i \in DOMAIN ag /\ Do((j :> Cloned(ag[i])) @@ ag, <<"clone", i, j>>) /\ UNCHANGED <<slot, next, ghost>>
Save(i) == i \in DOMAIN ag /\ slot' = (1 :> SavedOf(ag[i])) @@ slot /\ ghost' = (1 :> ag[i]) @@ ghost /\ Do(ag, <<"snap", i>>) /\ UNCHANGED next
Back(j) == 1 \in DOMAIN slot /\ Do((j :> Restored(D, slot[1])) @@ ag, <<"restore", j>>) /\ UNCHANGED <<slot, next, ghost>>
Next == Len(tr) < NMax /\ \E i \in Ids : (\E v \in {1, 2} : Change(i, v)) \/ Fill(i) \/ (\E j \in Ids : Copy(i, j)) \/ Save(i) \/ Back(i)
Spec == Init /\ [][Next]_vars
Exact == [][LET o == tr'[Len(tr')] IN
            /\ (o[1] = "clone" => ag'[o[3]].vals = ag[o[2]].vals /\ \A i \in DOMAIN ag' : ag'[o[3]].bufs[1].ids = <<>>)
            /\ (o[1] = "restore" => ag'[o[2]].vals = ghost[1].vals /\ ag'[o[2]].bufs[1].ids = ghost[1].bufs[1].ids)
            /\ \A i \in DOMAIN ag : (IF o[1] = "clone" THEN o[3] # i ELSE o[2] # i) => ag'[i] = ag[i]]_vars
Schedules == Len(tr) = NMax => PrintT("BEHAVIOUR " \o ToJson(tr))
=============================================================================
