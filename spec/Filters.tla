------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Digital filters on disk.                                                  *)
(*                                                                           *)
(* A filter (in memory) has a name and values for some parts: its base and   *)
(* coefficient sets; on disk there is a file for each part, and optionally    *)
(* the inversion output (plain or compressed).  Values are numbers (0: none). *)
(* The additional coefficient set "extra" is only known to filters which     *)
(* declare it.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dirs, Names, Coeffs, MaxLen

Parts == {"base"} \cup Coeffs
VARIABLES objs,    \* filters in memory: [name, extra, val : Parts -> value]
          files,   \* directory -> name -> part -> value
          full,    \* directory -> name -> compressed? -> value
          next,    \* next value
          pure,    \* place -> what was stored there, if only one filter was
          log
vars == <<objs, files, full, next, pure, log>>

Empty == [p \in Parts |-> 0]
Init == /\ objs = <<>> /\ log = <<>> /\ next = 1
        /\ files = [d \in Dirs |-> [s \in Names |-> Empty]]
        /\ full = [d \in Dirs |-> [s \in Names |-> [z \in {"", ".gz"} |-> 0]]]
        /\ pure = [d \in Dirs |-> [s \in Names |-> <<>>]]
Room == Len(log) < MaxLen
Known(o) == {p \in Parts : p # "extra" \/ o.extra}
Ev(e, o, d, s, z, v) == [e |-> e, o |-> o, d |-> d, s |-> s, z |-> z, v |-> v]

New(s, sets, x) ==
    /\ Room /\ Len(objs) < 4
    /\ ("extra" \in sets => x)
    /\ LET o == [name |-> s, extra |-> x,
                 val |-> [p \in Parts |-> IF p = "base" \/ p \in sets THEN next ELSE 0]]
       IN objs' = Append(objs, o) /\ log' = Append(log, Ev("new", Len(objs)+1, 0, s, "", o))
    /\ next' = next + 1
    /\ UNCHANGED <<files, full, pure>>
Put(old, o) == [p \in Parts |-> IF p \in Known(o) /\ o.val[p] # 0 THEN o.val[p] ELSE old[p]]
Store(i, d) ==
    /\ objs[i].val["base"] # 0
    /\ LET o == objs[i] IN
         /\ files' = [files EXCEPT ![d][o.name] = Put(@, o)]
         /\ pure' = [pure EXCEPT ![d][o.name] = Append(@, Put(Empty, o))]
ToFile(i, d) == /\ Room /\ Store(i, d)
                /\ log' = Append(log, Ev("tofile", i, d, objs[i].name, "", objs[i]))
                /\ UNCHANGED <<objs, full, next>>
\* With inversion output (or without: z = "none").
SaveFilter(i, d, z) ==
    /\ Room /\ Store(i, d)
    /\ IF z = "none" THEN UNCHANGED <<full, next>>
       ELSE full' = [full EXCEPT ![d][objs[i].name][z] = next] /\ next' = next + 1
    /\ log' = Append(log, Ev("save", i, d, objs[i].name, z,
                             [full |-> IF z = "none" THEN 0 ELSE next]))
    /\ UNCHANGED objs
\* Reading into a filter that has some values, or none.
Get(old, f, x) == [p \in Parts |-> IF f[p] # 0 /\ (p # "extra" \/ x) THEN f[p] ELSE old[p]]
FromFile(i, d) ==
    /\ Room
    /\ LET o == objs[i]
           f == files[d][o.name]
           n == [o EXCEPT !.val = Get(@, f, o.extra)]
       IN IF f["base"] = 0
          THEN UNCHANGED objs /\ log' = Append(log, Ev("error", i, d, o.name, "", o))
          ELSE objs' = [objs EXCEPT ![i] = n]
               /\ log' = Append(log, Ev("fromfile", i, d, o.name, "", n))
    /\ UNCHANGED <<files, full, next, pure>>
\* (Without a plain file the compressed one is taken.)
Output(d, s, z) == IF z = "none" THEN 0
                   ELSE IF full[d][s][z] = 0 THEN full[d][s][".gz"]
                   ELSE full[d][s][z]
LoadFilter(s, d, x, z) ==
    /\ Room /\ files[d][s]["base"] # 0 /\ Len(objs) < 4
    /\ LET o == [name |-> s, extra |-> x, val |-> Get(Empty, files[d][s], x)]
       IN objs' = Append(objs, o)
          /\ log' = Append(log, Ev("load", Len(objs)+1, d, s, z,
                 [f |-> o, full |-> Output(d, s, z)]))
    /\ UNCHANGED <<files, full, next, pure>>
Next ==
    \/ \E s \in Names, x \in BOOLEAN : \E sets \in SUBSET Coeffs :
          sets # {} /\ New(s, sets, x)
    \/ \E s \in Names, d \in Dirs, x \in BOOLEAN, z \in {"none", "", ".gz"} :
          LoadFilter(s, d, x, z)
    \/ \E i \in 1..Len(objs), d \in Dirs :
          ToFile(i, d) \/ FromFile(i, d)
          \/ \E z \in {"none", "", ".gz"} : SaveFilter(i, d, z)
Spec == Init /\ [][Next]_vars

\* One filter stored (once): exactly that filter is there.
Faithful == \A d \in Dirs, s \in Names :
              /\ (Len(pure[d][s]) = 1 => files[d][s] = pure[d][s][1])
              /\ (pure[d][s] = <<>> => files[d][s] = Empty)
\* The last one stored can be read back, in all the parts it had.
LastWins == \A d \in Dirs, s \in Names : pure[d][s] # <<>> =>
              LET p == pure[d][s][Len(pure[d][s])]
              IN \A q \in Parts : p[q] # 0 => files[d][s][q] = p[q]
\* Reading changes no files, writing no filters; a filter changes by itself.
Separate == [][/\ (objs' # objs => files' = files)
               /\ \A i \in 1..Len(objs), j \in 1..Len(objs) :
                    (objs'[i] # objs[i] /\ objs'[j] # objs[j]) => i = j]_vars
Export == Len(log) >= MaxLen => PrintT("@C" \o ToJson([log |-> log]))
================================================================================
