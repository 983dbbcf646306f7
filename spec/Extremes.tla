------------------------------ MODULE Extremes ------------------------------
(***************************************************************************)
(* Layered models whose values differ by many orders of magnitude.           *)
(*                                                                           *)
(* All values are powers of ten (their exponents, so that the sums below are *)
(* products).  A layer is a wall if it is thousands of skin depths thick:    *)
(* what gets into it comes out with a factor exp(-1000) or less, which is    *)
(* nothing, also for a computer.  A layer is lit if the field of the source  *)
(* gets there without crossing a wall.                                       *)
(*                                                                           *)
(* Whatever the values are, the field is finite; a receiver which is not lit *)
(* receives nothing; and what is not lit has no influence.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLayers, ResFrom, ResTo, ThickFrom, ThickTo, FreqFrom, FreqTo, Step

VARIABLES m, f, src, rec, side, stage
vars == <<m, f, src, rec, side, stage>>

\* (A configuration has no negative numbers: everything is given plus 20.)
Exponents(a, b) == { x - 20 : x \in { y \in a..b : (y - a) % Step = 0 } }
Res == Exponents(ResFrom, ResTo)
Thick == Exponents(ThickFrom, ThickTo)
Freq == Exponents(FreqFrom, FreqTo)

N == Len(m)

\* Ten times the exponent of the number of skin depths, 503 sqrt(res / freq), of a layer.
Depths(l, x) == 10 * l.t - 27 - 5 * (l.r - x)
\* The formula holds where the displacement currents do not matter.
Diffusive(l, x) == l.r + x <= 9
IsWall(i) == /\ i > 1 /\ i < N
             /\ Diffusive(m[i], f) /\ Depths(m[i], f) >= 35

\* --- where the field gets to ---------------------------------------------------------
\* From a layer into its neighbours; out of a wall nothing comes, unless the source is in it.
Step1(S) == S \cup { j \in 1..N : \E i \in S : (j = i - 1 \/ j = i + 1)
                                               /\ (i = src \/ ~ IsWall(i)) }
RECURSIVE Spread(_, _)
Spread(S, k) == IF k = 0 THEN S ELSE Spread(Step1(S), k - 1)
Lit == Spread({src}, N)

Silent == rec \notin Lit

\* What has an influence on the receiver: the lit layers from which something comes back.
\* (A wall is as good as a half-space: its thickness has none.)
Back == LET R[k \in 0..N] == IF k = 0 THEN {rec}
                             ELSE R[k - 1] \cup { j \in 1..N : \E i \in R[k - 1] :
                                    (j = i - 1 \/ j = i + 1) /\ (i = rec \/ ~ IsWall(i)) }
        IN R[N]
Matters == Lit \cap Back
Hidden == (1..N) \ Matters

\* --- building a model ------------------------------------------------------------------
Init == m = <<>> /\ f = 0 /\ src = 0 /\ rec = 0 /\ side = <<0, 0>> /\ stage = "layers"
Layer == /\ stage = "layers" /\ N < MaxLayers
         \* (The first one is a half-space.)
         /\ \E r \in Res : \E t \in (IF m = <<>> THEN {0} ELSE Thick) : m' = Append(m, [r |-> r, t |-> t])
         /\ UNCHANGED <<f, src, rec, side, stage>>
Filled == /\ stage = "layers" /\ N >= 1 /\ stage' = "freq" /\ UNCHANGED <<m, f, src, rec, side>>
Frequency == /\ stage = "freq" /\ stage' = "ends"
             /\ \E x \in Freq : f' = x /\ UNCHANGED <<m, src, rec, side>>
\* On which side of its layer: 0 at its upper boundary, 1 inside, 2 just above its lower one.
Source == /\ stage = "ends" /\ stage' = "receiver"
          /\ \E s \in 1..N : \E p \in 0..2 : src' = s /\ side' = <<p, 0>>
          /\ UNCHANGED <<m, f, rec>>
Receiver == /\ stage = "receiver" /\ stage' = "done"
            /\ \E r \in 1..N : \E q \in 0..2 : rec' = r /\ side' = [side EXCEPT ![2] = q]
            /\ UNCHANGED <<m, f, src>>
Next == Layer \/ Filled \/ Frequency \/ Source \/ Receiver
Spec == Init /\ [][Next]_vars

\* --- properties --------------------------------------------------------------------------
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Done == stage = "done"
\* Nothing is received exactly if there is a wall between them.
BehindWall == Done => (Silent <=> \E w \in (Min2(src, rec) + 1)..(Max2(src, rec) - 1) : IsWall(w))
\* Hidden are, if anything is received, the layers behind a wall for both of them.
Shielded == Done /\ ~ Silent /\ ~ IsWall(src) /\ ~ IsWall(rec) => Hidden =
  { i \in 1..N : \/ \E w \in 1..N : IsWall(w) /\ w > Max2(src, rec) /\ i > w
                 \/ \E w \in 1..N : IsWall(w) /\ w < Min2(src, rec) /\ i < w }
\* Reciprocity: who does not hear is not heard.
Mutual == Done /\ ~ IsWall(src) /\ ~ IsWall(rec) => (Silent <=> src \notin Back)
\* A higher frequency, a thicker or a less resistive layer do not open a wall.
Closing == Done => \A i \in 1..N : IsWall(i) =>
  /\ Depths([m[i] EXCEPT !.t = @ + 1], f) >= 35
  /\ Depths([m[i] EXCEPT !.r = @ - 1], f) >= 35
  /\ Depths(m[i], f + 1) >= 35
\* The ends of the model are no walls, and in the static limit there is none.
Static == Done => ~ IsWall(1) /\ ~ IsWall(N)

Walls == { i \in 1..N : IsWall(i) }
Export == Done =>
  PrintT("@C" \o ToJson([m |-> m, f |-> f, src |-> src, rec |-> rec, side |-> side,
                         silent |-> Silent, hidden |-> IF Silent THEN {} ELSE Hidden,
                         walls |-> { w \in Walls : w # src /\ w # rec /\ ~ Silent }]))
=============================================================================
