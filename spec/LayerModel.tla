------------------------------ MODULE LayerModel ------------------------------
(***************************************************************************)
(* The ways to write down one layered model.                                *)
(*                                                                           *)
(* A description is what the user passes: a list of interfaces (with or      *)
(* without the enclosing infinities, from top to bottom or from bottom to    *)
(* top) and, per parameter, either nothing or one value per layer in the     *)
(* order of the interfaces.  The meaning of a description is a sequence of   *)
(* layers from top to bottom with all parameters.  The actions rewrite a     *)
(* description into another one; the invariant SameMeaning says that none of *)
(* the rewritings changes the meaning, for Parse written after the manual.   *)
(*                                                                           *)
(* Layer values are small integers which stand for distinct numbers; 1 is    *)
(* the number one (the default of every optional parameter).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxN,       \* number of layers
          Fam         \* "e" or "m": which permittivity/permeability varies

INF == 1000
None == <<>>

VARIABLES d,      \* the description
          base    \* the true model, top to bottom (fixed)

vars == <<d, base>>

(* --- true models ---------------------------------------------------------- *)
Vary(n, off) == [i \in 1..n |-> off + i]
Ones(n)      == [i \in 1..n |-> 1]
Bases ==
  { [n |-> n, depth |-> [i \in 1..(n-1) |-> 10*i],
     res   |-> Vary(n, 1), extra |-> Vary(n, 60),
     aniso |-> a, pH |-> h, pV |-> v] :
      n \in 1..MaxN,
      a \in UNION {{Ones(k), Vary(k, 10)} : k \in 1..MaxN},
      h \in UNION {{Ones(k), Vary(k, 20)} : k \in 1..MaxN},
      v \in UNION {{Ones(k), Vary(k, 20), Vary(k, 40)} : k \in 1..MaxN} }
GoodBases == { b \in Bases : Len(b.aniso) = b.n /\ Len(b.pH) = b.n /\ Len(b.pV) = b.n }

(* --- the meaning of a description ------------------------------------------ *)
Decreasing(s) == Len(s) > 1 /\ \A i \in 1..(Len(s)-1) : s[i+1] < s[i]
Increasing(s) == \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
Inner(s) == SelectSeq(s, LAMBDA z : z # INF /\ z # -INF)

Turn(up, s) == IF up THEN Reverse(s) ELSE s

Parse(x) ==
  LET up == Decreasing(x.depth)
      n  == Len(x.res)
      T(s) == Turn(up, s)
      aniso == IF x.aniso = None THEN Ones(n) ELSE T(x.aniso)
      pH    == IF x.pH = None THEN Ones(n) ELSE T(x.pH)
      pV    == IF x.pV = None THEN pH ELSE T(x.pV)
  IN  [ depth |-> T(Inner(x.depth)), res |-> T(x.res),
        extra |-> IF x.dict THEN T(x.extra) ELSE None,
        aniso |-> aniso, pH |-> pH, pV |-> pV ]

WellFormed(x) ==
  /\ Increasing(x.depth) \/ Decreasing(x.depth)
  /\ Len(x.res) = Len(Inner(x.depth)) + 1
  /\ \A p \in {x.aniso, x.pH, x.pV} : p = None \/ Len(p) = Len(x.res)

(* --- rewriting ---------------------------------------------------------------- *)
Init == /\ base \in GoodBases
        /\ \E dict \in BOOLEAN :
             d = [depth |-> base.depth, res |-> base.res, aniso |-> base.aniso,
                  pH |-> base.pH, pV |-> base.pV, extra |-> base.extra,
                  dict |-> dict]

AllOne(s) == \A i \in 1..Len(s) : s[i] = 1
Fin(x)    == Inner(x.depth)
IsUp      == Decreasing(d.depth)

\* Write everything in the opposite direction.  Only possible if the list of
\* interfaces has at least two entries, as it else does not show the direction.
Turned == /\ Len(d.depth) > 1
          /\ d' = [d EXCEPT !.depth = Reverse(@), !.res = Reverse(@),
                     !.aniso = Reverse(@), !.pH = Reverse(@), !.pV = Reverse(@),
                     !.extra = Reverse(@)]

Has(z) == \E i \in 1..Len(d.depth) : d.depth[i] = z

AddInf(z) ==
  /\ ~Has(z)
  /\ d' = [d EXCEPT !.depth =
             IF (z = -INF) # IsUp THEN <<z>> \o @ ELSE @ \o <<z>>]

DropInf(z) ==
  /\ Has(z)
  /\ LET new == SelectSeq(d.depth, LAMBDA y : y # z)
     IN  /\ IsUp => (Len(new) > 1 \/ Len(d.res) = 1)
         /\ d' = [d EXCEPT !.depth = new]

\* One layer only: the direction of an empty list does not matter.
DropAniso == d.aniso # None /\ AllOne(d.aniso) /\ d' = [d EXCEPT !.aniso = None]
GiveAniso == d.aniso = None /\ d' = [d EXCEPT !.aniso = Ones(Len(d.res))]

DropV == d.pV # None /\ d.pV = (IF d.pH = None THEN Ones(Len(d.res)) ELSE d.pH)
         /\ d' = [d EXCEPT !.pV = None]
GiveV == d.pV = None
         /\ d' = [d EXCEPT !.pV = IF d.pH = None THEN Ones(Len(d.res)) ELSE d.pH]
\* A horizontal parameter of ones can be omitted, if the vertical one is given
\* or is one as well.
DropH == d.pH # None /\ AllOne(d.pH) /\ d' = [d EXCEPT !.pH = None]
GiveH == d.pH = None /\ d' = [d EXCEPT !.pH = Ones(Len(d.res))]

Next == /\ \/ Turned
           \/ \E z \in {INF, -INF} : AddInf(z) \/ DropInf(z)
           \/ DropAniso \/ GiveAniso \/ DropV \/ GiveV \/ DropH \/ GiveH
        /\ UNCHANGED base
Spec == Init /\ [][Next]_vars

(* --- properties ------------------------------------------------------------------ *)
Truth == [depth |-> base.depth, res |-> base.res,
          extra |-> IF d.dict THEN base.extra ELSE None,
          aniso |-> base.aniso, pH |-> base.pH, pV |-> base.pV]
SameMeaning   == Parse(d) = Truth
AlwaysWellFormed == WellFormed(d)
\* Every rewriting can be undone (the descriptions form one class).
DictKept == [][d'.dict = d.dict]_vars

Export == PrintT("@C" \o ToJson([d |-> d, base |-> base, fam |-> Fam]))
=============================================================================
