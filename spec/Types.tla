-------------------------------- MODULE Types ---------------------------------
(***************************************************************************)
(* Source and receiver types.                                                *)
(*                                                                           *)
(* The source is electric, magnetic or a loop (flux), the receiver electric, *)
(* magnetic, a loop (flux) or measures the electric current density.  An end *)
(* is a sequence of layers: those of its elements (point dipoles) or those   *)
(* of its integration points (one finite bipole).  The response of a pair of *)
(* points is the plain response of base types times medium parameters of the *)
(* layers of exactly these points:                                           *)
(*     source b : zeta(layer of the source)   (base: magnetic source)        *)
(*     receiver b : zeta(layer of the receiver)      (base: magnetic)        *)
(*     receiver j : eta(layer of the receiver)       (base: electric)        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NL,      \* number of layers
          MaxE     \* elements or points per end

STypes == {"e", "m", "b"}
RTypes == {"e", "m", "b", "j"}
Layers == 0..(NL-1)
Mono(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
Up(s)   == \A i \in 1..(Len(s)-1) : s[i] >= s[i+1]
Seqs == UNION {[1..k -> Layers] : k \in 1..MaxE}
\* Integration points lie on a line: monotone, three or four of them.
Paths == { s \in [1..3 -> Layers] : Mono(s) \/ Up(s) }
Ends == [form : {"elements"}, lay : Seqs] \cup [form : {"points"}, lay : Paths]

VARIABLES src, rec, st, rt
vars == <<src, rec, st, rt>>
Init == /\ src \in Ends /\ rec \in Ends /\ st \in {"e", "m"} /\ rt \in {"e", "m"}
SrcType == st = "m" /\ st' = "b" /\ UNCHANGED <<src, rec, rt>>
RecType == \/ rt = "m" /\ rt' = "b" /\ UNCHANGED <<src, rec, st>>
           \/ rt = "e" /\ rt' = "j" /\ UNCHANGED <<src, rec, st>>
Next == SrcType \/ RecType
Spec == Init /\ [][Next]_vars

\* Factor of a pair of points: sequences of <<parameter, layer>>.
Factor(t, s, i, j) ==
  (IF s = "b" THEN << <<"zeta", src.lay[j]>> >> ELSE <<>>) \o
  (CASE t = "b" -> << <<"zeta", rec.lay[i]>> >>
     [] t = "j" -> << <<"eta", rec.lay[i]>> >>
     [] OTHER   -> <<>>)
Base(t) == IF t \in {"b", "m"} THEN "m" ELSE "e"

\* Changing a type multiplies with exactly one parameter, of the own layer.
OneMore ==
  [][\A i \in DOMAIN rec.lay, j \in DOMAIN src.lay :
       Len(Factor(rt', st', i, j)) = Len(Factor(rt, st, i, j)) + 1]_vars
BaseKept == [][Base(st') = Base(st) /\ Base(rt') = Base(rt)]_vars
TypeOK == st \in STypes /\ rt \in RTypes

Export == PrintT("@C" \o ToJson(
  [src |-> src, rec |-> rec, st |-> st, rt |-> rt, sb |-> Base(st),
   rb |-> Base(rt),
   f |-> [i \in DOMAIN rec.lay |-> [j \in DOMAIN src.lay |->
            Factor(rt, st, i, j)]]]))
=============================================================================
