-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A session: calls in several threads, with the global minimum values set   *)
(* in between, results and inputs vandalised by the user afterwards.         *)
(*                                                                           *)
(* What a call returns is a function of the call and of the minimum values   *)
(* in force, F[call, min]; there is no other state.  (Behaviours exported    *)
(* here are executed by the driver, the recorded trace is validated by       *)
(* SessionTrace.tla.)                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, NCall, Mins, MaxLen

VARIABLES minv,      \* minimum values in force
          running,   \* thread -> call it executes (0: none)
          log        \* events so far
vars == <<minv, running, log>>

Init == minv = 0 /\ running = [t \in Threads |-> 0] /\ log = <<>>
Room == Len(log) < MaxLen
\* Objects handed over are either new ones or shared by all calls.
Start(t) == /\ Room /\ running[t] = 0
            /\ \E c \in 1..NCall, sh \in {TRUE, FALSE} :
                 /\ running' = [running EXCEPT ![t] = c]
                 /\ log' = Append(log, [k |-> "start", t |-> t, c |-> c, s |-> sh])
            /\ UNCHANGED minv
Finish(t) == /\ running[t] # 0
             /\ running' = [running EXCEPT ![t] = 0]
             /\ log' = Append(log, [k |-> "finish", t |-> t, c |-> running[t], s |-> FALSE])
             /\ UNCHANGED minv
Idle == \A t \in Threads : running[t] = 0
SetMin == /\ Room /\ Idle
          /\ \E m \in Mins \ {minv} :
                /\ minv' = m
                /\ log' = Append(log, [k |-> "setmin", t |-> 0, c |-> m, s |-> FALSE])
          /\ UNCHANGED running
\* The user overwrites everything returned so far.
Spoil == /\ Room /\ Idle /\ Len(log) > 0 /\ log[Len(log)].k # "spoil"
         /\ log' = Append(log, [k |-> "spoil", t |-> 0, c |-> 0, s |-> FALSE])
         /\ UNCHANGED <<minv, running>>
End == /\ Len(log) >= MaxLen /\ Idle /\ log[Len(log)].k # "end"
       /\ log' = Append(log, [k |-> "end", t |-> 0, c |-> 0, s |-> FALSE])
       /\ UNCHANGED <<minv, running>>
Next == (\E t \in Threads : Start(t) \/ Finish(t)) \/ SetMin \/ Spoil \/ End
Spec == Init /\ [][Next]_vars

\* The minimum values do not change while a call runs.
Stable == [][\A t \in Threads : running[t] # 0 => minv' = minv]_vars
Done == Len(log) > 0 /\ log[Len(log)].k = "end"
Export == Done => PrintT("@C" \o ToJson([log |-> log]))
================================================================================
