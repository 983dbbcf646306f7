----------------------------- MODULE Orientation ------------------------------
(***************************************************************************)
(* Arbitrarily oriented sources and receivers, with exact direction cosines. *)
(*                                                                           *)
(* An angle is a Pythagorean triple [c, s, d]: cosine c/d and sine s/d; the  *)
(* direction of (azimuth a, dip b) is (cos a cos b, sin a cos b, sin b).     *)
(* An experiment has a sequence of source and of receiver directions (all at *)
(* one depth each); the response of a pair is the sum of the nine components *)
(* weighted with the products of the direction cosines.                      *)
(*                                                                           *)
(* Need is what must be computed, Rule is the elimination a program may do   *)
(* (it looks at whole arrays of angles); RuleIsSafe: it never drops a        *)
(* component which some pair needs.                                          *)
(*                                                                           *)
(* An angle can be nudged: it is n*delta next to the angle of its triple, for *)
(* a small delta which the replay chooses (down to 1e-8); what is needed      *)
(* counts the components which are there only because of the nudge.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,          \* number of elements per end: 1..N
          Which       \* "all" directions, some of each "classes", a "few"

T(c, s, d) == [c |-> c, s |-> s, d |-> d, n |-> 0]
Nudge(t, n) == [t EXCEPT !.n = n]
Azms == {T(1,0,1), T(0,1,1), T(-1,0,1), T(0,-1,1), T(3,4,5), T(-5,12,13), T(4,-3,5),
         Nudge(T(1,0,1), -1), Nudge(T(0,1,1), 1), Nudge(T(-1,0,1), 1)}
Dips == {T(1,0,1), T(0,1,1), T(0,-1,1), T(-1,0,1), T(4,3,5), T(12,-5,13),
         Nudge(T(1,0,1), 1), Nudge(T(0,-1,1), 1)}

X == T(1,0,1)  Y == T(0,1,1)  W == T(-1,0,1)  S == T(0,-1,1)  O == T(3,4,5)
Xn == Nudge(X, 1)  Yn == Nudge(Y, -1)
Q == T(-5,12,13)  F == T(4,-3,5)
Cls == { <<X,X>>, <<Y,X>>, <<W,X>>, <<S,X>>, <<X,Y>>, <<X,S>>, <<Y,Y>>,
         <<O,X>>, <<X,O>>, <<Y,F>>, <<Q,F>>, <<O,Y>>, <<W,W>>, <<Xn,X>>, <<Yn,X>>, <<X,Xn>>, <<O,Yn>> }
Few == { <<X,X>>, <<Y,X>>, <<S,X>>, <<X,Y>>, <<X,S>>, <<O,X>>, <<Q,F>>, <<O,Y>>, <<Xn,X>>, <<X,Xn>> }
Dir == CASE Which = "all" -> Azms \X Dips [] Which = "classes" -> Cls [] OTHER -> Few

Vec(d) == << d[1].c*d[2].c, d[1].s*d[2].c, d[2].s*d[1].d >>
Den(d) == d[1].d*d[2].d

Seqs(n) == UNION {[1..k -> Dir] : k \in 1..n}

VARIABLES src, rec, msrc, mrec
vars == <<src, rec, msrc, mrec>>

Init == /\ src \in Seqs(N) /\ rec \in Seqs(N)
        /\ msrc \in BOOLEAN /\ mrec \in BOOLEAN
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* --- first-order change of the direction, and which components there are
Vec1(d) == << d[2].n*(-d[1].c*d[2].s) + d[1].n*(-d[1].s*d[2].c),
              d[2].n*(-d[1].s*d[2].s) + d[1].n*(d[1].c*d[2].c),
              d[2].n*d[2].c*d[1].d >>
HasC(t) == t.c # 0 \/ t.n # 0
HasS(t) == t.s # 0 \/ t.n # 0
Has(d, p) == CASE p = 1 -> HasC(d[1]) /\ HasC(d[2]) [] p = 2 -> HasS(d[1]) /\ HasC(d[2])
               [] OTHER -> HasS(d[2])

\* --- coefficients of receiver i, source j: component (p, q)
Coef(i, j, p, q) == Vec(rec[i])[p] * Vec(src[j])[q]
Need == { <<p, q>> \in (1..3) \X (1..3) :
            \E i \in DOMAIN rec, j \in DOMAIN src : Has(rec[i], p) /\ Has(src[j], q) }

AllAzm(e, t(_)) == \A i \in DOMAIN e : t(e[i][1])
AllDip(e, t(_)) == \A i \in DOMAIN e : t(e[i][2])
AlongC(a) == ~HasS(a)     \* multiple of 180 degrees
AlongS(a) == ~HasC(a)     \* odd multiple of 90 degrees
Dropped(e) == (IF AllAzm(e, AlongC) THEN {2} ELSE IF AllAzm(e, AlongS) THEN {1} ELSE {})
          \cup (IF AllDip(e, AlongC) THEN {3} ELSE IF AllDip(e, AlongS) THEN {1, 2} ELSE {})
Rule == ((1..3) \ Dropped(rec)) \X ((1..3) \ Dropped(src))

\* --- properties
Sq(v) == v[1]*v[1] + v[2]*v[2] + v[3]*v[3]
Unit == \A d \in Dir : /\ Sq(Vec(d)) = Den(d)*Den(d)
                       /\ LET u == Vec(d) v == Vec1(d)
                          IN  u[1]*v[1] + u[2]*v[2] + u[3]*v[3] = 0
                       /\ \A p \in 1..3 : (Vec(d)[p] # 0 \/ Vec1(d)[p] # 0) => Has(d, p)
Half(a) == [a EXCEPT !.c = -a.c, !.s = -a.s]           \* + 180 degrees
Neg(a)  == [a EXCEPT !.s = -a.s, !.n = -a.n]
Mirr(a) == [a EXCEPT !.c = -a.c, !.n = -a.n]                       \* 180 degrees - a
Minus(v) == <<-v[1], -v[2], -v[3]>>
Reversal == \A d \in Dir :
   /\ Vec(<<Half(d[1]), Neg(d[2])>>) = Minus(Vec(d))
   /\ Vec1(<<Half(d[1]), Neg(d[2])>>) = Minus(Vec1(d))
   /\ Vec(<<Half(d[1]), Mirr(d[2])>>) = Vec(d)
   /\ Vec1(<<Half(d[1]), Mirr(d[2])>>) = Vec1(d)
   /\ Vec(<<d[1], Half(d[2])>>) = Minus(Vec(d))
   /\ Vec1(<<d[1], Half(d[2])>>) = Minus(Vec1(d))
RuleIsSafe == Need \subseteq Rule
NineSum == \A i \in DOMAIN rec, j \in DOMAIN src :
   LET S9 == {<<p, q, Coef(i, j, p, q)*Coef(i, j, p, q)>> : p, q \in 1..3}
       RECURSIVE Sum(_)
       Sum(A) == IF A = {} THEN 0 ELSE LET a == CHOOSE a \in A : TRUE
                                       IN  a[3] + Sum(A \ {a})
   IN  Sum(S9) = Sq(Vec(rec[i])) * Sq(Vec(src[j]))

Show(e) == [i \in DOMAIN e |-> [a |-> e[i][1], b |-> e[i][2],
                                v |-> Vec(e[i]), d |-> Den(e[i])]]
Export == PrintT("@C" \o ToJson([src |-> Show(src), rec |-> Show(rec),
                                 msrc |-> msrc, mrec |-> mrec,
                                 need |-> Cardinality(Need)]))
=============================================================================
