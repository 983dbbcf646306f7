-------------------------------- MODULE Direct --------------------------------
(***************************************************************************)
(* The three ways to treat the direct field.                                 *)
(*                                                                           *)
(* An experiment: a stack (set of interfaces, one material per layer, equal  *)
(* materials allowed, different ones differing in one parameter - by - or in  *)
(* all), the depths of source and receiver, and the option x:                *)
(* "true" (analytical direct field), "false" (direct field in the wavenumber *)
(* domain), "none" (secondary field only).  Its field is described by the    *)
(* parts it consists of:                                                     *)
(*    A(m)  analytical full-space field of material m                        *)
(*    W(m)  the same computed through the wavenumber domain                  *)
(*    R     secondary field (zero in a homogeneous full-space)               *)
(*    T     transmitted field (source and receiver in different layers)      *)
(* Computing follows the decisions a program has to take; the properties     *)
(* state the additivity which must come out.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Ifaces, Points, NMat
Params == {"res", "aniso", "epermH", "epermV", "mpermH", "mpermV"}

VARIABLES ifs, mat, by, zs, zr, x
vars == <<ifs, mat, by, zs, zr, x>>
LayerOf(z) == Cardinality({d \in ifs : d < z}) + 1

\* Materials: all different, or with repetitions.
Mats(n) == { m \in [1..n -> 1..NMat] :
               \A i \in 1..n : m[i] <= i /\ \A v \in 1..(m[i]-1) : \E j \in 1..(i-1) : m[j] = v }

Init == /\ ifs \in SUBSET Ifaces
        /\ mat \in Mats(Cardinality(ifs)+1)
        /\ by \in Params \cup {"all"}
        /\ zs \in Points /\ zr \in Points
        /\ x = "none"
Next == x = "none" /\ x' \in {"true", "false"} /\ UNCHANGED <<ifs, mat, by, zs, zr>>
Spec == Init /\ [][Next]_vars

\* Value of a parameter in a layer; one differing parameter makes the media
\* different.
Value(p, i) == IF by \in {"all", p} THEN mat[i] ELSE 1
Hom  == \A p \in Params : \A i \in DOMAIN mat : Value(p, i) = Value(p, 1)
Same == LayerOf(zs) = LayerOf(zr)
M    == mat[LayerOf(zs)]

Parts(opt) ==
  IF Hom THEN CASE opt = "none" -> {} [] opt = "true" -> {<<"A", M>>}
                [] OTHER -> {<<"W", M>>}
  ELSE IF ~Same THEN {<<"T", 0>>}
  ELSE {<<"R", 0>>} \cup
       (CASE opt = "none" -> {} [] opt = "true" -> {<<"A", M>>}
          [] OTHER -> {<<"W", M>>})

\* What distinguishes two options is exactly the direct field of the layer.
Additive ==
  /\ (Same \/ Hom) => Parts("true") = Parts("none") \cup {<<"A", M>>}
  /\ (Same \/ Hom) => Parts("false") = Parts("none") \cup {<<"W", M>>}
  /\ ~(Same \/ Hom) => Parts("true") = Parts("none") /\ Parts("false") = Parts("none")
HomZero == Hom => Parts("none") = {}
AtMostOneDirect == \A o \in {"true", "false", "none"} :
   Cardinality({p \in Parts(o) : p[1] \in {"A", "W"}}) <= 1
Switch == [][ (Same \/ Hom) => Cardinality(Parts(x')) = Cardinality(Parts(x)) + 1]_vars

Export == x = "none" => PrintT("@C" \o ToJson(
  [d |-> SetToSortSeq(ifs, <), m |-> mat, by |-> by, zs |-> zs, zr |-> zr,
   hom |-> Hom, same |-> Same, own |-> M]))
=============================================================================
