--------------------------------- MODULE Report ---------------------------------
(***************************************************************************)
(* How the outcome of many adaptive integrals is reported.                   *)
(*                                                                           *)
(* A computation consists of elements (source x receiver x integration point *)
(* x component), each visited for all frequencies and offsets; each visit    *)
(* evaluates integrals of up to three kernels, each with a real and an       *)
(* imaginary part; afterwards a Fourier transform evaluates one integral per *)
(* offset and time.  Visits may be grouped in any way (loop over frequencies,*)
(* over offsets, or none).  Whatever the grouping, a missed tolerance        *)
(* anywhere must be reported, and nothing otherwise; the two levels are      *)
(* reported separately, and a silenced call prints nothing.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NElem, NFreq, NOff, NTime, Verbs

VARIABLES missH,    \* {<<elem, freq, off>>} where a Hankel integral misses
          missF,    \* {<<off, time>>} where a Fourier integral misses
          loop, verb, domain,
          todo, convH, convF, printed, phase
vars == <<missH, missF, loop, verb, domain, todo, convH, convF, printed, phase>>

Elem == 1..NElem  Freq == 1..NFreq  Off == 1..NOff  Time == 1..NTime
Visits == Elem \X Freq \X Off

\* The groups evaluated in one transform call.
Groups(l) == CASE l = "freq" -> {{<<e, f, o>> : o \in Off} : <<e, f>> \in Elem \X Freq}
               [] l = "off"  -> {{<<e, f, o>> : f \in Freq} : <<e, o>> \in Elem \X Off}
               [] OTHER      -> {{<<e, f, o>> : <<f, o>> \in Freq \X Off} : e \in Elem}

Init == /\ missH \in {S \in SUBSET Visits : Cardinality(S) <= 2}
        /\ domain \in {"f", "t"}
        /\ missF \in (IF domain = "t"
                      THEN {S \in SUBSET (Off \X Time) : Cardinality(S) <= 2}
                      ELSE {{}})
        /\ loop \in {"freq", "off", "none"}
        /\ verb \in Verbs
        /\ todo = Groups(loop)
        /\ convH = TRUE /\ convF = TRUE /\ printed = {} /\ phase = "hankel"

Hankel == /\ phase = "hankel" /\ todo # {}
          /\ \E g \in todo :
               /\ todo' = todo \ {g}
               /\ convH' = (convH /\ g \cap missH = {})
          /\ UNCHANGED <<missH, missF, loop, verb, domain, convF, printed, phase>>

WarnH == /\ phase = "hankel" /\ todo = {}
         /\ printed' = IF verb > 0 /\ ~convH THEN {"Hankel"} ELSE {}
         /\ phase' = IF domain = "t" THEN "fourier" ELSE "done"
         /\ todo' = IF domain = "t" THEN {{o} : o \in Off} ELSE {}
         /\ UNCHANGED <<missH, missF, loop, verb, domain, convH, convF>>

Fourier == /\ phase = "fourier" /\ todo # {}
           /\ \E g \in todo :
                /\ todo' = todo \ {g}
                /\ convF' = (convF /\ \A x \in missF : x[1] \notin g)
           /\ UNCHANGED <<missH, missF, loop, verb, domain, convH, printed, phase>>

WarnF == /\ phase = "fourier" /\ todo = {}
         /\ printed' = IF verb > 0 /\ ~convF THEN printed \cup {"Fourier"} ELSE printed
         /\ phase' = "done"
         /\ UNCHANGED <<missH, missF, loop, verb, domain, todo, convH, convF>>

Next == Hankel \/ WarnH \/ Fourier \/ WarnF
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Reported == phase = "done" =>
  /\ ("Hankel" \in printed) <=> (missH # {} /\ verb > 0)
  /\ ("Fourier" \in printed) <=> (missF # {} /\ verb > 0)
Finishes == <>(phase = "done")
================================================================================
