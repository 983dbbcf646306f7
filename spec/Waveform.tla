------------------------------- MODULE Waveform -------------------------------
(***************************************************************************)
(* Response to a piecewise-linear current, in exact integer arithmetic.      *)
(*                                                                           *)
(* The step response is a polynomial with integer coefficients (Gauss-       *)
(* Legendre quadrature with n points is exact up to degree 2n-1), so that    *)
(* the integral over a segment is rational; everything is kept as integer    *)
(* by the common factor Den.                                                 *)
(*                                                                           *)
(* The current is known from its first to its last node; the answer for time *)
(* t is      - sum_segments  slope * integral_{t-n2}^{t-n1} r(s) ds          *)
(* with the part of the segment after t removed.  (The minus is the          *)
(* convention of the code: switching off gives plus the switch-off response.)*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Gaps,      \* lengths of segments
          Amps,      \* amplitudes
          Start,     \* first nodes
          NSeg,      \* most segments
          Times, NTime, Quads, Polys, Shifts

VARIABLES nodes, amps, want, quad, poly, phase, shift
vars == <<nodes, amps, want, quad, poly, phase, shift>>

Den == 60 * 12              \* 60: antiderivatives up to t^6; 12: slopes
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x*Pow(x, n-1)
RECURSIVE Anti(_, _, _)     \* 60 * antiderivative of polynomial p, from term k
Anti(p, k, x) == IF k > Len(p) THEN 0
                 ELSE p[k]*(60 \div k)*Pow(x, k) + Anti(p, k+1, x)
\* Den * answer of segment i of waveform (nd, am) at time t.
Max(a, b) == IF a > b THEN a ELSE b
Part(nd, am, i, t, p) ==
  IF t <= nd[i] THEN 0
  ELSE -((am[i+1]-am[i])*(12 \div (nd[i+1]-nd[i]))
         *(Anti(p, 1, t-nd[i]) - Anti(p, 1, Max(0, t-nd[i+1]))))
RECURSIVE Upto(_, _, _, _, _)
Upto(nd, am, k, t, p) == IF k = 0 THEN 0
                         ELSE Part(nd, am, k, t, p) + Upto(nd, am, k-1, t, p)
Resp(nd, am, t, p) == Upto(nd, am, Len(nd)-1, t, p)

Init == /\ \E s \in Start : nodes = <<s>>
        /\ \E a \in Amps : amps = <<a>>
        /\ want = <<>> /\ quad = 1 /\ poly = <<0>> /\ phase = "wave"
        /\ shift = 0

Ramp == /\ phase = "wave" /\ Len(nodes) <= NSeg
        /\ \E g \in Gaps, a \in Amps :
              nodes' = Append(nodes, nodes[Len(nodes)]+g) /\ amps' = Append(amps, a)
        /\ UNCHANGED <<want, quad, poly, phase, shift>>
Ready == /\ phase = "wave" /\ Len(nodes) > 1
         /\ quad' \in Quads /\ poly' \in {p \in Polys : Len(p) <= 2*quad'}
         /\ phase' = "time"
         /\ UNCHANGED <<nodes, amps, want, shift>>
Ask  == /\ phase = "time" /\ Len(want) < NTime
        /\ \E t \in Times : want' = Append(want, t)
        /\ UNCHANGED <<nodes, amps, quad, poly, phase, shift>>
Call == /\ phase = "time" /\ Len(want) > 0 /\ phase' = "done"
        /\ UNCHANGED <<nodes, amps, want, quad, poly, shift>>

\* Put a node into a segment, on the line: the same current.
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i+1, Len(s))
Split == /\ phase = "done" /\ Len(nodes) <= NSeg+1
         /\ \E i \in 1..Len(nodes)-1, d \in 1..3 :
              LET g == nodes[i+1]-nodes[i]
                  r == amps[i+1]-amps[i]
              IN /\ d < g /\ (r*d) % g = 0
                 /\ 12 % d = 0 /\ 12 % (g-d) = 0
                 /\ nodes' = InsertAt(nodes, i, nodes[i]+d)
                 /\ amps' = InsertAt(amps, i, amps[i] + (r*d) \div g)
         /\ UNCHANGED <<want, quad, poly, phase, shift>>
\* Later switch-on, later observation.
Shift == /\ phase = "done" /\ shift = 0
         /\ \E s \in Shifts : /\ shift' = s
                              /\ nodes' = [i \in 1..Len(nodes) |-> nodes[i]+s]
                              /\ want' = [i \in 1..Len(want) |-> want[i]+s]
         /\ UNCHANGED <<amps, quad, poly, phase>>
Next == Ramp \/ Ready \/ Ask \/ Call \/ Split \/ Shift
Spec == Init /\ [][Next]_vars

Answer == [k \in 1..Len(want) |-> Resp(nodes, amps, want[k], poly)]
----------------------------------------------------------------------------
SameResponse == [][phase = "done" => Answer' = Answer]_vars
\* Nothing from the future, nothing from constant current.
Causal == \A k \in 1..Len(want) :
            (\A i \in 1..Len(nodes)-1 :
               nodes[i] < want[k] => amps[i] = amps[i+1]) => Answer[k] = 0
\* Additive: twice the current gives twice the response; and adding a constant
\* current changes nothing; the parts of a waveform add up.
Additive ==
  \A k \in 1..Len(want) :
     /\ Resp(nodes, [i \in 1..Len(amps) |-> 3 - 2*amps[i]], want[k], poly) = -2*Answer[k]
     /\ \A j \in 2..Len(nodes)-1 :
          Answer[k] = Resp(SubSeq(nodes, 1, j), SubSeq(amps, 1, j), want[k], poly)
                    + Resp(SubSeq(nodes, j, Len(nodes)), SubSeq(amps, j, Len(amps)),
                           want[k], poly)
\* A step of length g much before t behaves like the step response: for the
\* constant step response 1 the answer is minus the change of current so far.
Constant == \A k \in 1..Len(want) :
              want[k] >= nodes[Len(nodes)] =>
                Resp(nodes, amps, want[k], <<1>>) = Den*(amps[1]-amps[Len(amps)])
Export ==
  phase = "done" =>
    PrintT("@C" \o ToJson([nodes |-> nodes, amps |-> amps, want |-> want,
                           quad |-> quad, poly |-> poly, den |-> Den,
                           answer |-> Answer]))
================================================================================
