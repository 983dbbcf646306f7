------------------------------ MODULE Quadrature ------------------------------
(***************************************************************************)
(* Finite-length bipoles.                                                    *)
(*                                                                           *)
(* An end (source or receiver) is a point dipole of a given direction or a   *)
(* finite bipole, given by the integer vector from its first to its second   *)
(* end point; all lengths are integers.  The response is                     *)
(*                                                                           *)
(*    scale * sum_{i, j} w_i w_j  P(source point i, receiver point j)        *)
(*                                                                           *)
(* with the point response P of unit dipoles along the directions, the       *)
(* symmetric weights w (sum 1) of the effective number of points, and        *)
(* scale = strength * source length * receiver length, 1 if strength = 0.    *)
(* Actions: exchange the end points, change strength or number of points, put *)
(* a further bipole into the same call (smate, rmate: none if empty), which   *)
(* may have another length and direction, before or after the own one.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPts, MaxSteps
Strengths == {-3, 0, 1, 2}

V(x, y, z, l) == [x |-> x, y |-> y, z |-> z, l |-> l]
Fin == { V(3,4,0,5), V(0,5,0,5), V(4,0,0,4), V(0,0,3,3), V(1,2,2,3),
         V(-2,3,6,7), V(2,-1,-2,3), V(-6,0,0,6) }
Pnt == { V(3,4,0,5), V(1,2,2,3), V(0,0,1,1), V(1,0,0,1) }
Ends == [fin : {TRUE}, v : Fin] \cup [fin : {FALSE}, v : Pnt]

Mates == { [v |-> v, first |-> f] :
             v \in { V(0,0,2,2), V(8,0,0,8), V(-1,2,2,3) }, f \in BOOLEAN }
None == [v |-> V(0,0,0,0), first |-> FALSE]

VARIABLES src, rec, spts, rpts, str, smate, rmate, steps
vars == <<src, rec, spts, rpts, str, smate, rmate, steps>>

Flip(v) == V(-v.x, -v.y, -v.z, v.l)

Init == /\ src \in Ends /\ rec \in Ends /\ steps = 0
        /\ smate = None /\ rmate = None
        /\ spts \in 1..MaxPts /\ rpts \in 1..MaxPts /\ str \in Strengths
        /\ (~src.fin) => spts \in {1, 3}
        /\ (~rec.fin) => rpts \in {1, 4}

Step == steps < MaxSteps /\ steps' = steps + 1
SwapSrc == Step /\ src.fin /\ src' = [src EXCEPT !.v = Flip(src.v)]
                /\ UNCHANGED <<rec, spts, rpts, str, smate, rmate>>
SwapRec == Step /\ rec.fin /\ rec' = [rec EXCEPT !.v = Flip(rec.v)]
                /\ UNCHANGED <<src, spts, rpts, str, smate, rmate>>
Strength == Step /\ str' \in Strengths /\ str' # str
                 /\ UNCHANGED <<src, rec, spts, rpts, smate, rmate>>
Accompany == Step /\ (src.fin => smate' \in Mates) /\ (rec.fin => rmate' \in Mates)
                  /\ (~src.fin => smate' = None) /\ (~rec.fin => rmate' = None)
                  /\ (src.fin /\ rec.fin => smate'.first # rmate'.first)
                  /\ (src.fin \/ rec.fin) /\ UNCHANGED <<src, rec, spts, rpts, str>>
Next == SwapSrc \/ SwapRec \/ Strength \/ Accompany
Spec == Init /\ [][Next]_vars

Eff(e, n) == IF ~e.fin \/ n < 3 THEN 1 ELSE n
Len1(e) == IF e.fin THEN e.v.l ELSE 1
Scale == IF str = 0 THEN 1 ELSE str * Len1(src) * Len1(rec)

\* The moment: strength * length * direction, as a fraction of the length for
\* points (num over den), for a product of source and receiver.
Num(c1, c2) == Scale * c1 * c2
Den == src.v.l * rec.v.l
Sq(v) == v.x*v.x + v.y*v.y + v.z*v.z
Lengths == Sq(src.v) = src.v.l*src.v.l /\ Sq(rec.v) = rec.v.l*rec.v.l
\* Finite and strength: the moment of source and receiver is just the vectors.
MomentIsVector ==
  (src.fin /\ rec.fin /\ str # 0) =>
     Num(src.v.x, rec.v.z) = str * src.v.x * rec.v.z * Den
     /\ Scale = str * Den
M == <<Num(src.v.x, rec.v.x), Num(src.v.x, rec.v.y), Num(src.v.z, rec.v.y),
       Num(src.v.z, rec.v.z), Num(src.v.y, rec.v.y), Num(src.v.y, rec.v.x)>>
SwapNegates ==
  [][(SwapSrc \/ SwapRec) => M' = [i \in 1..6 |-> -M[i]]]_vars
Linear ==
  [][(Strength /\ str # 0 /\ str' # 0)
       => \A i \in 1..6 : M'[i] * str = M[i] * str']_vars

\* The response of a pair does not depend on who else is in the call.
Alone == [][Accompany => M' = M]_vars

View == <<src, rec, spts, rpts, str, smate, rmate>>
Export == PrintT("@C" \o ToJson(
  [src |-> src, rec |-> rec, spts |-> spts, rpts |-> rpts, str |-> str,
   smate |-> smate, rmate |-> rmate,
   ns |-> Eff(src, spts), nr |-> Eff(rec, rpts), scale |-> Scale]))
=============================================================================
