---------------------------------- MODULE Dlf ----------------------------------
(***************************************************************************)
(* Digital linear filters on a logarithmic axis.  All positions are integer  *)
(* multiples of a small unit: the filter abscissae are b0 + i*Step,          *)
(* i = 0..n-1, the outputs o arbitrary; the kernel is needed at b - o.       *)
(*                                                                           *)
(* std  every needed point is computed                                       *)
(* lag  points with the spacing of the filter are computed from the lowest   *)
(*      needed one upwards (Extend); a window of n points moved by j steps   *)
(*      yields the result at ints[j] = omax - j*Step (Slide); the outputs    *)
(*      are interpolated between the ints                                    *)
(* spl  points with spacing Sp are computed, the kernel is interpolated      *)
(*                                                                           *)
(* Every output has an angle (ang, as equivalence classes).  The parts of a   *)
(* response have different angular factors; they can be filtered together,   *)
(* with one common factor, exactly if all outputs have the same angle.       *)
(*                                                                           *)
(* The properties say which interpolations never leave the computed range,   *)
(* and which are exact.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Outs, MaxOut, Lens, Starts, Spacings, Step

VARIABLES outs, ang, n, b0, mode, sp, pts, ints
vars == <<outs, ang, n, b0, mode, sp, pts, ints>>

Start(i) == i - 100           \* configuration files have no negative numbers
Base == [i \in 1..n |-> b0 + (i-1)*Step]
O    == Range(outs)
omax == Max(O)
omin == Min(O)
Need == {Base[i] - o : i \in 1..n, o \in O}

Init == /\ outs \in UNION {[1..m -> Outs] : m \in 1..MaxOut}
        /\ ang \in {a \in [DOMAIN outs -> 1..2] : a[1] = 1}
        /\ n \in Lens /\ b0 \in {Start(i) : i \in Starts}
        /\ mode \in {"std", "lag", "spl"}
        /\ sp \in IF mode = "spl" THEN Spacings ELSE {Step}
        /\ pts = IF mode = "std" THEN SetToSortSeq(Need, <) ELSE <<b0 - omax>>
        /\ ints = IF mode = "lag" THEN <<omax>> ELSE <<>>

\* Enough points: the needed range is covered, and a cubic can be fitted.
MinRows == 4
Rows == IF mode # "lag" THEN 0
        ELSE LET c == (omax - omin + Step - 1) \div Step + 1
             IN  IF c < MinRows THEN MinRows ELSE c
Enough == CASE mode = "std" -> TRUE
            [] mode = "lag" -> Len(pts) >= n + Rows - 1
            [] OTHER -> Last(pts) >= Max(Need) /\ Len(pts) >= 4
Extend == /\ ~Enough /\ pts' = Append(pts, Last(pts) + sp)
          /\ UNCHANGED <<outs, ang, n, b0, mode, sp, ints>>
Slide  == /\ mode = "lag" /\ Enough /\ Len(ints) < Rows
          /\ ints' = Append(ints, Last(ints) - Step)
          /\ UNCHANGED <<outs, ang, n, b0, mode, sp, pts>>
Next == Extend \/ Slide
Spec == Init /\ [][Next]_vars
Done == Enough /\ Len(ints) = Rows

\* ------------------------------------------------------------- properties
\* The window of ints[j] contains exactly the points its output needs.
Window == (mode = "lag" /\ Enough) =>
  \A j \in DOMAIN ints : \A i \in 1..n : pts[j-1+i] = Base[i] - ints[j]
\* No interpolation outside of what was computed.
Cover == Done =>
  CASE mode = "lag" -> \A o \in O : Last(ints) <= o /\ o <= ints[1]
    [] OTHER -> \A q \in Need : pts[1] <= q /\ q <= Last(pts)
LagNeeds == (Done /\ mode = "lag") =>
  \A q \in Need : pts[1] <= q /\ q <= Last(pts)
\* Outputs where nothing is interpolated.
Exact(o) == CASE mode = "std" -> TRUE
              [] mode = "lag" -> \E j \in DOMAIN ints : ints[j] = o
              [] OTHER -> \A i \in 1..n : \E k \in DOMAIN pts : pts[k] = Base[i] - o
LargestExact == (Done /\ mode = "lag") => Exact(omax)
\* With a single output, nothing is interpolated by the lagged convolution.
SingleExact == (Done /\ mode = "lag" /\ omin = omax) => \A o \in O : Exact(o)
SplExact == (Done /\ mode = "spl" /\ Step % sp = 0
             /\ \A o \in O : (omax - o) % sp = 0) => \A o \in O : Exact(o)

\* One factor for all outputs, or one per output: the weight which output i
\* gives to the part with the angular factor.
Common == \A i \in DOMAIN ang : ang[i] = ang[1]
Factor(i) == IF Common THEN ang[1] ELSE ang[i]
AngleKept == \A i \in DOMAIN ang : Factor(i) = ang[i]

Export == Done => PrintT("@C" \o ToJson(
  [o |-> outs, ang |-> ang, n |-> n, b0 |-> b0, mode |-> mode, sp |-> sp,
   ex |-> [i \in DOMAIN outs |-> Exact(outs[i])],
   lo |-> Min(Need), hi |-> Max(Need)]))
================================================================================
