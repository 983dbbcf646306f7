-------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* Execution options and the schedule of the frequency-domain computation.   *)
(*                                                                           *)
(* A request needs the kernel at every frequency and every offset.  The loop *)
(* option decides how the work is cut into kernel calls: everything at once, *)
(* frequency by frequency, or offset by offset (quadratures and              *)
(* interpolating filters always go frequency by frequency).  Whatever the    *)
(* schedule, at the end each pair has been computed exactly once: the result *)
(* is a function of the request only.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Routines, Hts, Doms

NF == {1, 3}
NO == {1, 4}

VARIABLES opt, done, todo
vars == <<opt, done, todo>>

Opts == [rout : Routines, ht : Hts, dom : Doms, loop : {"none", "off", "freq"},
         verb : 0..4, pos : BOOLEAN, nf : NF, no : NO]

FreqLoop(o) == o.loop = "freq" \/ o.ht \notin {"dlf0"}
OffLoop(o)  == ~FreqLoop(o) /\ o.loop = "off"
Pairs(o) == (1..o.nf) \X (1..o.no)

Init == opt \in Opts /\ done = <<>> /\ todo = Pairs(opt)

Call == /\ todo # {}
        /\ LET blk == IF FreqLoop(opt)
                      THEN LET f == CHOOSE f \in 1..opt.nf : \E p \in todo : p[1] = f
                           IN  {p \in todo : p[1] = f}
                      ELSE IF OffLoop(opt)
                      THEN LET o == CHOOSE o \in 1..opt.no : \E p \in todo : p[2] = o
                           IN  {p \in todo : p[2] = o}
                      ELSE todo
           IN  /\ done' = Append(done, blk)
               /\ todo' = todo \ blk
        /\ UNCHANGED opt
Next == Call
Spec == Init /\ [][Next]_vars /\ WF_vars(Call)

\* Every pair exactly once.
Partition ==
  /\ (UNION {done[i] : i \in DOMAIN done}) \cup todo = Pairs(opt)
  /\ \A i, j \in DOMAIN done : i # j => done[i] \cap done[j] = {}
  /\ \A i \in DOMAIN done : done[i] \cap todo = {}
Calls == todo = {} =>
  Len(done) = IF FreqLoop(opt) THEN opt.nf ELSE IF OffLoop(opt) THEN opt.no ELSE 1
Terminates == <>(todo = {})

\* Export at the end; the standard filter may also be evaluated one by one.
Export == todo = {} =>
  PrintT("@C" \o ToJson([o |-> opt, calls |-> Len(done),
                         single |-> opt.ht = "dlf0"]))
=============================================================================
