---------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* The two filter collections and their process-wide cache.                  *)
(*                                                                           *)
(* A filter is a record of parts (base and coefficient sets), read one after *)
(* the other from the library, in any thread; it enters the cache when it is *)
(* complete, and a request for a cached filter returns it at once.           *)
(* Collection k = 1 (hankel), 2 (fourier); the same name can be in both.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, NName,   \* names 1..NName in every collection
          Parts,            \* steps of reading a filter
          MaxLen

VARIABLES cache,    \* set of <<k, name>> that are cached
          pc,       \* thread -> [k, name, n]: parts read so far (n = -1: idle)
          got,      \* thread -> what it obtained last: <<k, name, parts>>
          log
vars == <<cache, pc, got, log>>

None == [k |-> 0, name |-> 0, n |-> -1]
Init == /\ cache = {} /\ log = <<>>
        /\ pc = [t \in Threads |-> None]
        /\ got = [t \in Threads |-> <<0, 0, Parts>>]
Room == Len(log) < MaxLen
Ev(e, t, k, m) == [e |-> e, t |-> t, k |-> k, name |-> m]
Request(t, k, m) ==
    /\ Room /\ pc[t].n = -1
    /\ log' = Append(log, Ev("get", t, k, m))
    /\ IF <<k, m>> \in cache
       THEN got' = [got EXCEPT ![t] = <<k, m, Parts>>] /\ UNCHANGED <<cache, pc>>
       ELSE pc' = [pc EXCEPT ![t] = [k |-> k, name |-> m, n |-> 0]]
            /\ UNCHANGED <<cache, got>>
Read(t) ==
    /\ pc[t].n \in 0..Parts-1
    /\ log' = Append(log, Ev("read", t, pc[t].k, pc[t].name))
    /\ IF pc[t].n + 1 < Parts
       THEN pc' = [pc EXCEPT ![t].n = @ + 1] /\ UNCHANGED <<cache, got>>
       ELSE /\ cache' = cache \cup {<<pc[t].k, pc[t].name>>}
            /\ got' = [got EXCEPT ![t] = <<pc[t].k, pc[t].name, Parts>>]
            /\ pc' = [pc EXCEPT ![t] = None]
\* A request for something unknown changes nothing.
Unknown(t, k) == /\ Room /\ pc[t].n = -1
                 /\ log' = Append(log, Ev("unknown", t, k, 0))
                 /\ UNCHANGED <<cache, pc, got>>
\* New instances of the collection share the cache.
Instance(t, k) == /\ Room /\ pc[t].n = -1
                  /\ log' = Append(log, Ev("new", t, k, 0))
                  /\ UNCHANGED <<cache, pc, got>>
\* Requests by deprecated name (handled as the name itself).
Old(t, k, m) == /\ Room /\ \A s \in Threads : pc[s].n = -1
                /\ log' = Append(log, Ev("old", t, k, m))
                /\ cache' = cache \cup {<<k, m>>}
                /\ got' = [got EXCEPT ![t] = <<k, m, Parts>>]
                /\ UNCHANGED pc
Idle == \A t \in Threads : pc[t].n = -1
Next == \/ \E t \in Threads, k \in {1, 2}, m \in 1..NName :
              Request(t, k, m) \/ Old(t, k, m)
        \/ \E t \in Threads : Read(t)
        \/ \E t \in Threads, k \in {1, 2} : Unknown(t, k) \/ Instance(t, k)
Spec == Init /\ [][Next]_vars

\* What a thread obtains is complete, and the one it asked for.
Complete == \A t \in Threads : got[t][3] = Parts
\* The cache only grows.
Grows == [][cache \subseteq cache']_vars
\* One's request is served by oneself or from the cache.
Served == [][\A t \in Threads : got'[t] # got[t] =>
                <<got'[t][1], got'[t][2]>> \in cache']_vars
Export == (Len(log) >= MaxLen /\ Idle) => PrintT("@C" \o ToJson([log |-> log]))
View == <<cache, pc, got>>
================================================================================
