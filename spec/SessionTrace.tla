------------------------------ MODULE SessionTrace ------------------------------
(***************************************************************************)
(* Validates recorded sessions against the specification "a call is a        *)
(* function": the only state are the minimum values; what a call returned    *)
(* once for these minimum values it returns always (memo), in particular     *)
(* what it returned in a fresh process (Fresh); the objects handed over are  *)
(* unchanged afterwards.                                                     *)
(* Events (JSON): k, t(hread), c(all/minimum), r(esult digest), i(nput       *)
(* digest; "" where the event has none).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Trace == JsonDeserialize("trace.json")   \* sequence of events
Fresh == JsonDeserialize("fresh.json")   \* sequence of [c, m, r]

VARIABLES i, minv, open, memo, bad
vars == <<i, minv, open, memo, bad>>

FreshOf(c, m) == LET S == {x \in 1..Len(Fresh) : Fresh[x].c = c /\ Fresh[x].m = m}
                 IN IF S = {} THEN "" ELSE Fresh[CHOOSE x \in S : TRUE].r
Init == i = 1 /\ minv = 0 /\ open = <<>> /\ memo = <<>> /\ bad = <<>>
E == Trace[i]
Key(c) == <<c, minv>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

NewSession == E.k = "end"    /\ minv' = 0 /\ open' = <<>> /\ UNCHANGED <<memo, bad>>
SetMin  == E.k = "setmin" /\ minv' = E.c /\ UNCHANGED <<open, memo, bad>>
Spoil   == E.k = "spoil"  /\ UNCHANGED <<minv, open, memo, bad>>
Start   == E.k = "start"  /\ open' = Put(open, E.t, [c |-> E.c, i |-> E.i])
                          /\ UNCHANGED <<minv, memo, bad>>
Finish  == /\ E.k = "finish"
           /\ LET was == IF Key(E.c) \in DOMAIN memo THEN memo[Key(E.c)]
                         ELSE FreshOf(E.c, minv)
                  res == was = "" \/ was = E.r
                  inp == E.t \in DOMAIN open /\ open[E.t].c = E.c /\ open[E.t].i = E.i
              IN /\ memo' = Put(memo, Key(E.c), IF was = "" THEN E.r ELSE was)
                 /\ bad' = (IF res THEN bad ELSE Append(bad, <<i, "result">>))
                           \o (IF inp THEN <<>> ELSE <<<<i, "input">>>>)
           /\ UNCHANGED <<minv, open>>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ (NewSession \/ SetMin \/ Spoil \/ Start \/ Finish)
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT("@C" \o ToJson([bad |-> bad, n |-> i-1]))
================================================================================
