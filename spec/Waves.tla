--------------------------------- MODULE Waves ---------------------------------
(***************************************************************************)
(* Up- and down-going waves in a stack of layers, in exact arithmetic.       *)
(*                                                                           *)
(* In every layer the horizontal electric and magnetic field of one mode     *)
(* (transverse magnetic or transverse electric) behave like voltage V and    *)
(* current I of a transmission line with impedance Z and propagation         *)
(* constant G; over one unit of depth a wave decays by E = exp(-G).  The     *)
(* state is the pair <<V, I>> of all four elementary problems (two modes,    *)
(* current source i or voltage source v) at depth z, walking away from the   *)
(* source; a transition crosses one unit of depth.                           *)
(*                                                                           *)
(* Z and E are exact Gaussian rationals (Rat), so the properties (continuity *)
(* at the interfaces, only outgoing waves in the outermost layers, the jump  *)
(* at the source) hold without rounding.  Pool "re" corresponds to Laplace   *)
(* values, pool "cx" to frequencies.                                         *)
(*                                                                           *)
(* The second part derives from Maxwell's equations which combination of the *)
(* four problems and of Bessel functions makes up each component.            *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Ifaces,     \* candidate interface depths
          Sources,    \* source depths
          Lo, Hi,     \* the walk ends there
          Shifts,     \* assignments of materials to layers
          Laws        \* check the laws relating different sources

VARIABLES ifs, pool, sh, zs, z, dir, f
vars == <<ifs, pool, sh, zs, z, dir, f>>

ASSUME RatLoaded

Q(a, b)    == CNum(a, 0, b)
G3(a, b, c) == CNum(a, b, c)
\* zm, em: impedance and decay of the TM mode; ze, ee: of the TE mode.
PoolRe == << [zm |-> Q(1,1),  em |-> Q(1,2), ze |-> Q(1,5),  ee |-> Q(2,5)],
             [zm |-> Q(5,2),  em |-> Q(2,5), ze |-> Q(1,3),  ee |-> Q(1,2)],
             [zm |-> Q(1,2),  em |-> Q(1,3), ze |-> Q(1,7),  ee |-> Q(1,2)],
             [zm |-> Q(7,2),  em |-> Q(2,3), ze |-> Q(1,1),  ee |-> Q(3,5)],
             [zm |-> Q(4,3),  em |-> Q(1,4), ze |-> Q(1,2),  ee |-> Q(2,7)],
             [zm |-> Q(9,1),  em |-> Q(1,2), ze |-> Q(3,4),  ee |-> Q(1,2)],
             [zm |-> Q(2,3),  em |-> Q(3,7), ze |-> Q(1,9),  ee |-> Q(1,3)] >>
PoolCx == << [zm |-> G3(1,1,1), em |-> G3(3,-4,10), ze |-> G3(1,1,5), ee |-> G3(2,-1,6)],
             [zm |-> G3(2,1,3), em |-> G3(2,-1,5),  ze |-> G3(0,1,3), ee |-> G3(3,-1,6)],
             [zm |-> G3(5,-1,4),em |-> G3(1,-1,3),  ze |-> G3(1,2,9), ee |-> G3(1,-1,2)],
             [zm |-> G3(3,2,2), em |-> G3(5,-2,10), ze |-> G3(1,3,4), ee |-> G3(2,-1,4)],
             [zm |-> G3(1,2,4), em |-> G3(1,-2,5),  ze |-> G3(2,1,6), ee |-> G3(2,-3,9)],
             [zm |-> G3(4,1,1), em |-> G3(4,-1,7),  ze |-> G3(1,1,2), ee |-> G3(3,-2,8)],
             [zm |-> G3(2,-1,5),em |-> G3(1,-1,5),  ze |-> G3(1,4,9), ee |-> G3(1,0,3)] >>
Mat(p, k, s) == LET P == IF p = "re" THEN PoolRe ELSE PoolCx
                IN  P[((k + s - 1) % 7) + 1]

NL(S)       == Cardinality(S) + 1
Below(S, x) == Cardinality({d \in S : d <= x}) + 1      \* layer of (x, x+1)
Above(S, x) == Cardinality({d \in S : d < x}) + 1       \* layer of (x-1, x)
LayerOf(S, x) == Above(S, x)                            \* interface: the upper layer

\* A line: the interfaces, and impedance and decay per layer.
Line(S, p, s, te) ==
  [s |-> S, Z |-> [k \in 1..NL(S) |-> IF te THEN Mat(p, k, s).ze ELSE Mat(p, k, s).zm],
            E |-> [k \in 1..NL(S) |-> IF te THEN Mat(p, k, s).ee ELSE Mat(p, k, s).em]]
\* The homogeneous line of layer k.
Homog(L, k) == [s |-> {}, Z |-> <<L.Z[k]>>, E |-> <<L.E[k]>>]

Tanh(E) == LET q == CMul(E, E) IN CDiv(CSub(C1, q), CAdd(C1, q))
Ch(E) == CDiv(CAdd(CDiv(C1, E), E), Q(2, 1))
Sh(E) == CDiv(CSub(CDiv(C1, E), E), Q(2, 1))

\* Impedance seen looking down / up at depth x.
Through(L, k, Zl) == LET t == Tanh(L.E[k]) IN
  CDiv(CMul(L.Z[k], CAdd(Zl, CMul(L.Z[k], t))), CAdd(L.Z[k], CMul(Zl, t)))
RECURSIVE ZDn(_, _)
ZDn(L, x) == IF \A d \in L.s : d <= x THEN L.Z[NL(L.s)]
             ELSE Through(L, Below(L.s, x), ZDn(L, x+1))
RECURSIVE ZUp(_, _)
ZUp(L, x) == IF \A d \in L.s : d >= x THEN L.Z[1]
             ELSE Through(L, Above(L.s, x), ZUp(L, x-1))

\* Just below (+) and above (-) a source with jumps v and i.
Plus(L, x, v, i)  == LET zd == ZDn(L, x)  zu == ZUp(L, x)
                         Ip == CDiv(CAdd(v, CMul(zu, i)), CAdd(zd, zu))
                     IN  <<CMul(zd, Ip), Ip>>
Minus(L, x, v, i) == LET P == Plus(L, x, v, i) IN <<CSub(P[1], v), CSub(P[2], i)>>
Mean(a, b) == <<CDiv(CAdd(a[1], b[1]), Q(2,1)), CDiv(CAdd(a[2], b[2]), Q(2,1))>>

\* Crossing one unit of depth with impedance Z and decay E (s = 1 down, -1 up).
Cross(Z, E, s, w) ==
  LET c == Ch(E)  h == IF s = 1 THEN CNeg(Sh(E)) ELSE Sh(E)
  IN  <<CAdd(CMul(w[1], c), CMul(Z, CMul(w[2], h))),
        CAdd(CMul(w[2], c), CDiv(CMul(w[1], h), Z))>>
StepDn(L, x, w) == LET k == Below(L.s, x) IN Cross(L.Z[k], L.E[k], 1, w)
StepUp(L, x, w) == LET k == Above(L.s, x) IN Cross(L.Z[k], L.E[k], -1, w)

Problems == <<[te |-> FALSE, v |-> 0, i |-> 1], [te |-> FALSE, v |-> 1, i |-> 0],
              [te |-> TRUE, v |-> 0, i |-> 1],  [te |-> TRUE, v |-> 1, i |-> 0]>>
LineOf(q) == Line(ifs, pool, sh, Problems[q].te)

Init == /\ ifs \in SUBSET Ifaces /\ pool \in {"re", "cx"} /\ sh \in Shifts
        /\ zs \in Sources /\ z = zs
        /\ dir \in {"dn", "up"}
        /\ f = [q \in 1..4 |->
                  LET L == Line(ifs, pool, sh, Problems[q].te)
                      v == Q(Problems[q].v, 1)  i == Q(Problems[q].i, 1)
                  IN  IF dir = "dn" THEN Plus(L, zs, v, i) ELSE Minus(L, zs, v, i)]
Down == /\ dir = "dn" /\ z < Hi /\ z' = z + 1
        /\ f' = [q \in 1..4 |-> StepDn(LineOf(q), z, f[q])]
        /\ UNCHANGED <<ifs, pool, sh, zs, dir>>
Up   == /\ dir = "up" /\ z > Lo /\ z' = z - 1
        /\ f' = [q \in 1..4 |-> StepUp(LineOf(q), z, f[q])]
        /\ UNCHANGED <<ifs, pool, sh, zs, dir>>
Next == Down \/ Up
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* Only outgoing waves in the outermost layers.
Radiation ==
  \A q \in 1..4 : LET L == LineOf(q) IN
    /\ (dir = "dn" /\ \A d \in ifs : d <= z) => f[q][1] = CMul(L.Z[NL(ifs)], f[q][2])
    /\ (dir = "up" /\ \A d \in ifs : d >= z) => CNeg(f[q][1]) = CMul(L.Z[1], f[q][2])
\* ... which decay.
Decay == [][ \A q \in 1..4 :
      (\/ dir = "dn" /\ \A d \in ifs : d <= z
       \/ dir = "up" /\ \A d \in ifs : d >= z) => CCmp(f'[q][1], f[q][1]) <= 0 ]_vars
\* V and I agree with the impedances at every depth, seen from the source.
Impedances ==
  \A q \in 1..4 : LET L == LineOf(q) IN
    IF dir = "dn" THEN f[q][1] = CMul(ZDn(L, z), f[q][2])
                  ELSE CNeg(f[q][1]) = CMul(ZUp(L, z), f[q][2])

\* The field of problem q with the source at a, at depth b (mean at the source).
RECURSIVE WalkDn(_, _, _, _)
WalkDn(L, x, y, w) == IF x = y THEN w ELSE WalkDn(L, x+1, y, StepDn(L, x, w))
RECURSIVE WalkUp(_, _, _, _)
WalkUp(L, x, y, w) == IF x = y THEN w ELSE WalkUp(L, x-1, y, StepUp(L, x, w))
FieldAt(L, q, a, b) ==
  LET v == Q(Problems[q].v, 1)  i == Q(Problems[q].i, 1)
      P == Plus(L, a, v, i)  M == Minus(L, a, v, i)
  IN  IF a = b THEN Mean(P, M) ELSE IF b > a THEN WalkDn(L, a, b, P)
      ELSE WalkUp(L, a, b, M)
\* Exchanging source and receiver.
Reciprocity == Laws =>
  \A m \in {0, 2} : LET L == LineOf(m+1) IN
    /\ FieldAt(L, m+1, zs, z)[1] = FieldAt(L, m+1, z, zs)[1]
    /\ FieldAt(L, m+2, zs, z)[2] = FieldAt(L, m+2, z, zs)[2]
    /\ FieldAt(L, m+2, zs, z)[1] = CNeg(FieldAt(L, m+1, z, zs)[2])
\* The homogeneous line: Z/2 exp(-G|z|).
HomogLaw == Laws =>
  \A q \in {1, 3} : LET L == Homog(LineOf(q), 1)
                        n == IF z > zs THEN z - zs ELSE zs - z
    IN  FieldAt(L, q, zs, z)[1] = CMul(CDiv(L.Z[1], Q(2,1)), CPow(L.E[1], n))

\* ------------------------------------------------- the components (once)
(* Maxwell: curl H = eta E + J, curl E = -zeta H - M, spectrum exp(i k.x),   *)
(* k = lambda (c, s).  TM: V = E_k, I = H_phi; TE: V = E_phi, I = -H_k.      *)
(* A factor: sign s, power u of the imaginary unit, trigonometric factors t, *)
(* mode and port g, vertical factor lambda/etaV ("e") or lambda/zetaV ("z"). *)
T(s, u, t, g, w) == [s |-> s, u |-> u, t |-> t, g |-> g, w |-> w]
\* Sources as current (1) or voltage (2) of the modes.
SrcTerms(a) ==
  CASE a = 1 -> {T(-1, 0, <<"c">>, <<"TM", 1>>, ""), T(1, 0, <<"s">>, <<"TE", 1>>, "")}
    [] a = 2 -> {T(-1, 0, <<"s">>, <<"TM", 1>>, ""), T(-1, 0, <<"c">>, <<"TE", 1>>, "")}
    [] a = 3 -> {T(-1, 1, <<>>, <<"TM", 2>>, "e")}
    [] a = 4 -> {T(1, 0, <<"s">>, <<"TM", 2>>, ""), T(1, 0, <<"c">>, <<"TE", 2>>, "")}
    [] a = 5 -> {T(-1, 0, <<"c">>, <<"TM", 2>>, ""), T(1, 0, <<"s">>, <<"TE", 2>>, "")}
    [] a = 6 -> {T(1, 1, <<>>, <<"TE", 1>>, "z")}
\* Receivers as V (1) or I (2) of the modes.
RecTerms(b) ==
  CASE b = 1 -> {T(1, 0, <<"c">>, <<"TM", 1>>, ""), T(-1, 0, <<"s">>, <<"TE", 1>>, "")}
    [] b = 2 -> {T(1, 0, <<"s">>, <<"TM", 1>>, ""), T(1, 0, <<"c">>, <<"TE", 1>>, "")}
    [] b = 3 -> {T(1, 1, <<>>, <<"TM", 2>>, "e")}
    [] b = 4 -> {T(-1, 0, <<"c">>, <<"TE", 2>>, ""), T(-1, 0, <<"s">>, <<"TM", 2>>, "")}
    [] b = 5 -> {T(-1, 0, <<"s">>, <<"TE", 2>>, ""), T(1, 0, <<"c">>, <<"TM", 2>>, "")}
    [] b = 6 -> {T(-1, 1, <<>>, <<"TE", 1>>, "z")}
\* Products of two trigonometric factors as harmonics <<half, harmonic>>:
\* coefficient half/2.
Harm(t) == CASE t = <<>> -> {<<2, "1">>}
             [] t = <<"c">> -> {<<2, "c1">>}
             [] t = <<"s">> -> {<<2, "s1">>}
             [] t = <<"c", "c">> -> {<<1, "1">>, <<1, "c2">>}
             [] t = <<"s", "s">> -> {<<1, "1">>, <<-1, "c2">>}
             [] OTHER -> {<<1, "s2">>}
\* exp(i m alpha) becomes i^m J_m(lambda r) exp(i m theta).
Order(h) == CASE h = "1" -> 0 [] h \in {"c1", "s1"} -> 1 [] OTHER -> 2
\* Number of problem and port of source term x and receiver term y.
Terms(b, a) ==
  { [k |-> y.s * x.s * h[1] * (IF u = 2 THEN -1 ELSE 1), den |-> 2,
     q |-> (IF x.g[1] = "TM" THEN 0 ELSE 2) + x.g[2], port |-> y.g[2],
     h |-> h[2], m |-> Order(h[2]), ws |-> x.w, wr |-> y.w] :
    <<x, y, h, u>> \in { w \in SrcTerms(a) \X RecTerms(b)
                            \X {<<2, "1">>, <<2, "c1">>, <<2, "s1">>, <<1, "1">>,
                                <<1, "c2">>, <<-1, "c2">>, <<1, "s2">>}
                            \X {0, 2, 4} :
        /\ w[1].g[1] = w[2].g[1]
        /\ w[3] \in Harm(w[2].t \o w[1].t)
        /\ w[4] = w[1].u + w[2].u + Order(w[3][2]) } }
\* Only real factors remain.
RealFactors == \A a, b \in 1..6 : \A x \in SrcTerms(a), y \in RecTerms(b) :
   x.g[1] = y.g[1] => \A h \in Harm(y.t \o x.t) : (x.u + y.u + Order(h[2])) \in {0, 2, 4}
ASSUME RealFactors
ASSUME Laws \/ PrintT("@C" \o ToJson([table |->
   [b \in 1..6 |-> [a \in 1..6 |-> SetToSeq(Terms(b, a))]],
   re |-> PoolRe, cx |-> PoolCx]))

\* At the source the mean, once.
Value(q) == IF z = zs THEN FieldAt(LineOf(q), q, zs, z) ELSE f[q]
Secondary(q) == LET w == Value(q)
                    h == FieldAt(Homog(LineOf(q), LayerOf(ifs, zs)), q, zs, z)
                IN  <<CSub(w[1], h[1]), CSub(w[2], h[2])>>
SameLayer == LayerOf(ifs, zs) = LayerOf(ifs, z)
Export == (~Laws /\ ~(z = zs /\ dir = "up")) => PrintT("@C" \o ToJson(
  [d |-> SetToSortSeq(ifs, <), p |-> pool, sh |-> sh, zs |-> zs, z |-> z,
   same |-> SameLayer, ls |-> LayerOf(ifs, zs), lr |-> LayerOf(ifs, z),
   tot |-> [q \in 1..4 |-> Value(q)],
   sec |-> IF SameLayer THEN [q \in 1..4 |-> Secondary(q)] ELSE <<>>]))
================================================================================
