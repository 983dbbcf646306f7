-------------------------------- MODULE Layers --------------------------------
(***************************************************************************)
(* Layer membership and the cutting of layers.                              *)
(*                                                                           *)
(* A stack is a set of interface depths with one material per layer (a       *)
(* sequence, one longer than the number of interfaces).  A point belongs to  *)
(* the half-open layer (upper interface, lower interface].  Cut puts an      *)
(* interface into a layer; both parts keep its material.  Cutting never      *)
(* changes the material at any depth, hence the source and the receiver stay *)
(* in the same medium with the same surroundings, and the field is the same. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Ifaces,    \* candidates for the interfaces of the original stack
          Points,    \* candidates for the source and receiver depth
          Cuts,      \* candidates for additional interfaces
          MaxCuts

VARIABLES base,      \* original interfaces (set), fixed
          ifs,       \* current interfaces
          mat,       \* material of the layers, top to bottom
          zs, zr
vars == <<base, ifs, mat, zs, zr>>

SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Sorted(S) == SetToSortSeq(S, <)

\* Number (from 0) of the layer of a point: the interfaces strictly above it.
LayerOf(I, z) == Cardinality({d \in I : d < z})
Material(I, m, z) == m[LayerOf(I, z) + 1]

Init == /\ base \in SUBSET Ifaces
        /\ ifs = base
        /\ mat = [i \in 1..(Cardinality(base)+1) |-> i]
        /\ zs \in Points /\ zr \in Points

Cut == \E c \in Cuts \ ifs :
         /\ Cardinality(ifs) < Cardinality(base) + MaxCuts
         /\ ifs' = ifs \cup {c}
         /\ LET k == LayerOf(ifs, c) + 1
            IN  mat' = SubSeq(mat, 1, k) \o SubSeq(mat, k, Len(mat))
         /\ UNCHANGED <<base, zs, zr>>

Next == Cut
Spec == Init /\ [][Next]_vars

AllZ == Ifaces \cup Points \cup Cuts
\* --- properties
MediumUnchanged ==
  \A z \in AllZ :
    Material(ifs, mat, z) = LayerOf(base, z) + 1
HalfOpen ==
  \A z \in ifs : LayerOf(ifs, z) < LayerOf(ifs, z+1)
                 /\ LayerOf(ifs, z) = LayerOf(ifs \ {z}, z)
Sane == Len(mat) = Cardinality(ifs) + 1
CutKeepsMedium ==
  [][\A z \in AllZ : Material(ifs', mat', z) = Material(ifs, mat, z)]_vars

Export ==
  PrintT("@C" \o ToJson(
    [depth |-> Sorted(base), cut |-> Sorted(ifs), mat |-> mat,
     zs |-> zs, zr |-> zr,
     lsrc |-> LayerOf(base, zs), lrec |-> LayerOf(base, zr),
     lsrc2 |-> LayerOf(ifs, zs), lrec2 |-> LayerOf(ifs, zr)]))
=============================================================================
