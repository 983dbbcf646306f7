------------------------------- MODULE Survey -------------------------------
(***************************************************************************)
(* Assembly of a survey: one call with several sources and receivers.       *)
(*                                                                           *)
(* The wavenumber-domain computation handles one source depth and one       *)
(* receiver depth at a time.  A call therefore loops over the *distinct-     *)
(* depth groups* of the sources and of the receivers (all elements at once   *)
(* if the depths are shared, one by one otherwise), over integration points  *)
(* of the source and of the receiver, and adds what it computed into a flat  *)
(* array of nsrc*nrec slots per frequency, which is finally presented with   *)
(* axes (frequency or time, receiver, source).                              *)
(*                                                                           *)
(* The state below is that loop: group counters, integration counters, the   *)
(* accumulating slot array.  An element is the contribution of               *)
(* <<source, source point, receiver, receiver point>>.  Invariants state     *)
(* that every slot only ever holds contributions of its own pair and, when   *)
(* finished, each exactly once.  Every finished configuration is exported    *)
(* with the expected content of every output position.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxS, MaxR, MaxPts, Kinds

(* Geometry of one end: number of elements, whether depths are shared, the  *)
(* form (point dipole given by 5 entries, finite bipole by 6), which of the  *)
(* coordinates and angles are given as single values, integration points.   *)
Ends(max) ==
  { e \in [n: 1..max, shared: BOOLEAN, form: {"point","finite"},
           scal: {"none","xy","ang"}, pts: 1..MaxPts] :
      /\ (e.n = 1 => e.shared /\ e.scal = "none")
      /\ (e.form = "point" => e.pts = 1)
      \* a finite bipole needs both coordinates of an end in full length
      /\ (e.form = "finite" => e.scal \in {"none", "xy"}) }

\* The routines that know only principal directions take point dipoles which
\* share one depth; a loop source is always evaluated at a single point.
Simple(e) == e.shared /\ e.form = "point" /\ e.scal # "ang"
Configs == { k \in [kind: Kinds, src: Ends(MaxS), rec: Ends(MaxR)] :
               /\ k.kind \in {"dipole", "analytical"} => Simple(k.src) /\ Simple(k.rec)
               /\ k.kind = "loop" => k.src.pts = 1 }

VARIABLES c,        \* the configuration (fixed)
          gs, gr,   \* current source group / receiver group
          ps, pr,   \* current integration points
          slots,    \* flat array: bag of contributions per slot
          pc

vars == <<c, gs, gr, ps, pr, slots, pc>>

Groups(e) == IF e.shared THEN << 1..e.n >>
             ELSE [i \in 1..e.n |-> {i}]
NPts(e)  == IF e.form = "point" \/ e.pts < 3 THEN 1 ELSE e.pts
NSlots   == c.src.n * c.rec.n
SlotOf(s, r) == (s-1) * c.rec.n + r        \* source-major, receivers inside
SrcOf(k) == ((k-1) \div c.rec.n) + 1
RecOf(k) == ((k-1) % c.rec.n) + 1

Init == /\ c \in Configs
        /\ gs = 1 /\ gr = 1 /\ ps = 1 /\ pr = 1
        /\ slots = [k \in 1..(c.src.n * c.rec.n) |-> {}]
        /\ pc = "run"

\* Compute one (source group, receiver group, source point, receiver point)
\* at once for all pairs of the two groups, and add it to their slots.
Add == slots' = [k \in DOMAIN slots |->
         IF SrcOf(k) \in Groups(c.src)[gs] /\ RecOf(k) \in Groups(c.rec)[gr]
         THEN slots[k] \cup {<<SrcOf(k), ps, RecOf(k), pr>>}
         ELSE slots[k]]

Advance ==
  IF pr < NPts(c.rec)
  THEN /\ pr' = pr + 1 /\ UNCHANGED <<ps, gr, gs, pc>>
  ELSE IF ps < NPts(c.src)
  THEN /\ pr' = 1 /\ ps' = ps + 1 /\ UNCHANGED <<gr, gs, pc>>
  ELSE IF gr < Len(Groups(c.rec))
  THEN /\ pr' = 1 /\ ps' = 1 /\ gr' = gr + 1 /\ UNCHANGED <<gs, pc>>
  ELSE IF gs < Len(Groups(c.src))
  THEN /\ pr' = 1 /\ ps' = 1 /\ gr' = 1 /\ gs' = gs + 1 /\ UNCHANGED pc
  ELSE /\ pc' = "done" /\ UNCHANGED <<pr, ps, gr, gs>>

Step == pc = "run" /\ Add /\ Advance /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties of the design ------------------------------------------ *)
OwnPairOnly ==
  \A k \in DOMAIN slots : \A e \in slots[k] :
      SlotOf(e[1], e[3]) = k
CompleteWhenDone ==
  pc = "done" =>
    \A k \in DOMAIN slots :
      slots[k] = { <<SrcOf(k), p, RecOf(k), q>> :
                   p \in 1..NPts(c.src), q \in 1..NPts(c.rec) }
OnlyGrows == [][\A k \in DOMAIN slots : slots[k] \subseteq slots'[k]]_vars
Finishes == <>(pc = "done")

(* --- export ------------------------------------------------------------- *)
\* Which pair each slot holds, the number of single calls it stands for, and
\* the axes of the result before and after squeezing for nf frequencies.
Shape(nf)    == <<nf, c.rec.n, c.src.n>>
Squeezed(nf) == SelectSeq(Shape(nf), LAMBDA d : d # 1)
Export ==
  pc = "done" =>
    PrintT("@C" \o ToJson(
      [kind |-> c.kind, src |-> c.src, rec |-> c.rec,
       pairs |-> [k \in 1..NSlots |-> <<SrcOf(k), RecOf(k)>>],
       shape |-> [nf \in 1..3 |-> Shape(nf)],
       squeezed |-> [nf \in 1..3 |-> Squeezed(nf)]]))
=============================================================================
