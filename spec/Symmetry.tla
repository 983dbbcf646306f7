------------------------------- MODULE Symmetry -------------------------------
(***************************************************************************)
(* The symmetries of the field of a horizontally layered earth.              *)
(*                                                                           *)
(* An experiment e consists of a stack (increasing interface depths d, one   *)
(* material m per layer), a source at s and a receiver at r (integer         *)
(* coordinates x, y, z), and the components sc, rc: 1,2,3 electric x,y,z and *)
(* 4,5,6 magnetic x,y,z.  A generator maps an experiment to another one and  *)
(* gives the sign by which the field changes.  The state holds the original  *)
(* experiment, the current one, and the accumulated sign:                    *)
(*                      field(cur) = sign * field(org).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Gens,        \* generators in use
          MinIf, MaxIf,  \* numbers of interfaces
          Hor,         \* "few" or "many" horizontal positions
          Depth        \* number of generators applied

VARIABLES org, cur, sign, k
vars == <<org, cur, sign, k>>

P(x, y, z) == [x |-> x, y |-> y, z |-> z]
IfSeq == <<0, 8, 14, 30, 37>>
\* Two depths in every layer.
ZIn(n) == LET first == {-3, -1}  last == {IfSeq[n]+2, IfSeq[n]+5}
          IN  IF n = 0 THEN {-1, 3}
              ELSE first \cup last
                   \cup UNION {{IfSeq[i]+2, IfSeq[i+1]-1} : i \in 1..(n-1)}
HorCand == IF Hor = "few" THEN {<<6, 4>>, <<5, 0>>}
           ELSE {<<6, 4>>, <<5, 0>>, <<0, -7>>, <<-3, 3>>}

Exps ==
  UNION { { [d |-> SubSeq(IfSeq, 1, n), m |-> [i \in 1..(n+1) |-> i],
             s |-> P(1, -2, zs), r |-> P(1+h[1], -2+h[2], zr),
             sc |-> a, rc |-> b] :
             zs \in ZIn(n), zr \in ZIn(n), h \in HorCand, a \in 1..6, b \in 1..6 }
          : n \in MinIf..MaxIf }

(* --- generators: experiment -> <<experiment, sign>> -------------------------- *)
El(c) == c <= 3
Ax(c) == IF El(c) THEN c ELSE c - 3
Mk(c, ax) == IF El(c) THEN ax ELSE ax + 3

Swap(e) == << [e EXCEPT !.s = e.r, !.r = e.s, !.sc = e.rc, !.rc = e.sc],
              IF El(e.sc) = El(e.rc) THEN 1 ELSE -1 >>

ShiftH(e, a, b) == << [e EXCEPT !.s.x = @+a, !.s.y = @+b, !.r.x = @+a, !.r.y = @+b], 1 >>
ShiftV(e, c) == << [e EXCEPT !.s.z = @+c, !.r.z = @+c,
                    !.d = [i \in DOMAIN e.d |-> e.d[i] + c]], 1 >>

\* Quarter turn about the vertical axis (x -> y -> -x).
RotP(p) == P(-p.y, p.x, p.z)
RotC(c) == <<Mk(c, CASE Ax(c) = 1 -> 2 [] Ax(c) = 2 -> 1 [] OTHER -> 3),
             IF Ax(c) = 2 THEN -1 ELSE 1>>
\* A unit x component of the original is a y component afterwards; a unit y
\* component is a -x component.
Rot(e) == LET a == RotC(e.sc)  b == RotC(e.rc)
          IN  << [e EXCEPT !.s = RotP(e.s), !.r = RotP(e.r), !.sc = a[1], !.rc = b[1]],
                 a[2]*b[2] >>

\* Mirror of coordinate ax: polar (electric) component along ax flips, axial
\* (magnetic) components across ax flip.
Par(c, ax) == IF El(c) THEN (IF Ax(c) = ax THEN -1 ELSE 1)
              ELSE (IF Ax(c) = ax THEN 1 ELSE -1)
MirX(e) == << [e EXCEPT !.s.x = -@, !.r.x = -@], Par(e.sc, 1)*Par(e.rc, 1) >>
MirY(e) == << [e EXCEPT !.s.y = -@, !.r.y = -@], Par(e.sc, 2)*Par(e.rc, 2) >>
MirZ(e) == << [e EXCEPT !.s.z = -@, !.r.z = -@,
               !.d = Reverse([i \in DOMAIN e.d |-> -e.d[i]]), !.m = Reverse(e.m)],
              Par(e.sc, 3)*Par(e.rc, 3) >>

Apply(g, e) ==
  CASE g = "swap" -> Swap(e) [] g = "shiftH" -> ShiftH(e, 3, -5)
    [] g = "shiftV" -> ShiftV(e, 6) [] g = "rot" -> Rot(e)
    [] g = "mirX" -> MirX(e) [] g = "mirY" -> MirY(e) [] g = "mirZ" -> MirZ(e)

Init == org \in Exps /\ cur = org /\ sign = 1 /\ k = 0
Next == \E g \in Gens :
          /\ k < Depth /\ k' = k + 1
          /\ cur' = Apply(g, cur)[1] /\ sign' = sign * Apply(g, cur)[2]
          /\ UNCHANGED org
Spec == Init /\ [][Next]_vars
View == <<org, cur, sign>>

(* --- properties ----------------------------------------------------------------- *)
RECURSIVE Power(_, _, _)
Power(g, n, x) == IF n = 0 THEN x
                  ELSE LET y == Apply(g, x[1]) IN Power(g, n-1, <<y[1], x[2]*y[2]>>)
Both(g, h, e) == LET y == Apply(g, e)  z == Apply(h, y[1]) IN <<z[1], y[2]*z[2]>>
Involutions == \A g \in {"swap", "mirX", "mirY", "mirZ"} : Power(g, 2, <<cur, 1>>) = <<cur, 1>>
Turn4 == Power("rot", 4, <<cur, 1>>) = <<cur, 1>>
\* Mirror in x and in y is half a turn.
HalfTurn == Both("mirX", "mirY", cur) = Power("rot", 2, <<cur, 1>>)
Commute == /\ \A g \in {"mirX", "mirY", "mirZ", "rot"} : Both(g, "swap", cur) = Both("swap", g, cur)
           /\ \A g \in {"mirX", "mirY", "rot"} : Both(g, "mirZ", cur) = Both("mirZ", g, cur)
           /\ Both("mirX", "mirY", cur) = Both("mirY", "mirX", cur)
WellFormed == /\ \A i \in 1..(Len(cur.d)-1) : cur.d[i] < cur.d[i+1]
              /\ Len(cur.m) = Len(cur.d)+1
              /\ \A i \in DOMAIN cur.d : cur.s.z # cur.d[i] /\ cur.r.z # cur.d[i]
              /\ sign \in {1, -1}
LayerOf(e, z) == Cardinality({i \in DOMAIN e.d : e.d[i] < z}) + 1
\* Source and receiver media are kept or exchanged.
MediaKept ==
  {cur.m[LayerOf(cur, cur.s.z)], cur.m[LayerOf(cur, cur.r.z)]}
     = {org.m[LayerOf(org, org.s.z)], org.m[LayerOf(org, org.r.z)]}

Export == k > 0 => PrintT("@C" \o ToJson([o |-> org, c |-> cur, g |-> sign]))
=============================================================================
