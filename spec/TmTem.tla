--------------------------------- MODULE TmTem ---------------------------------
(***************************************************************************)
(* The field in the layer of the source as a sum over rays.                  *)
(*                                                                           *)
(* Of each mode, a ray leaves the source upwards and one downwards; they are *)
(* reflected again and again at the two interfaces of the layer (with the    *)
(* reflection coefficients of everything behind), and pass the receiver      *)
(* after every reflection.  A contribution <<a, l>> collects the rays which  *)
(* arrive at the receiver in direction a and left the source in direction l. *)
(* A transition is one reflection of both rays.                              *)
(***************************************************************************)
EXTENDS Waves

CONSTANTS MaxRefl

VARIABLES te,      \* mode
          ray,     \* leave -> [alive, d (direction), z, amp]
          acc,     \* <<arrive, leave>> -> [sum, n] of the passes
          n        \* reflections so far
vars2 == <<vars, te, ray, acc, n>>

Ln == Line(ifs, pool, sh, te)
Lay == LayerOf(ifs, zs)
SeqIf == SetToSortSeq(ifs, <)
HasTop == Lay > 1
HasBot == Lay < NL(ifs)
Top == SeqIf[Lay-1]
Bot == SeqIf[Lay]
Zl == Ln.Z[Lay]
El(m) == CPow(Ln.E[Lay], m)
\* Reflection (of the voltage) at the bottom and the top of the layer.
Refl(Zx) == CDiv(CSub(Zx, Zl), CAdd(Zx, Zl))
Rp == IF HasBot THEN Refl(ZDn(Ln, Bot)) ELSE C0
Rm == IF HasTop THEN Refl(ZUp(Ln, Top)) ELSE C0
Half(x) == CDiv(x, Q(2, 1))

Classes == {<<a, l>> : a, l \in {"u", "d"}}
\* The shortest ray of each contribution: reflections at the bottom and the
\* top, and its length as coefficients of bottom, top, source, receiver.
Path(c) == CASE c = <<"u", "u">> -> [p |-> 1, m |-> 1, len |-> <<2, -2, 1, -1>>]
             [] c = <<"u", "d">> -> [p |-> 1, m |-> 0, len |-> <<2, 0, -1, -1>>]
             [] c = <<"d", "u">> -> [p |-> 0, m |-> 1, len |-> <<0, -2, 1, 1>>]
             [] c = <<"d", "d">> -> [p |-> 1, m |-> 1, len |-> <<2, -2, -1, 1>>]
Exists(c) == (Path(c).p = 1 => HasBot) /\ (Path(c).m = 1 => HasTop)
Len4(c) == LET l == Path(c).len
           IN (IF l[1] # 0 THEN l[1]*Bot ELSE 0) + (IF l[2] # 0 THEN l[2]*Top ELSE 0)
              + l[3]*zs + l[4]*z
Rounds == IF HasTop /\ HasBot THEN CMul(CMul(Rp, Rm), El(2*(Bot-Top))) ELSE C0
First(c) == IF ~Exists(c) THEN C0
            ELSE CMul(CMul(Half(Zl), El(Len4(c))),
                      CMul(IF Path(c).p = 1 THEN Rp ELSE C1, IF Path(c).m = 1 THEN Rm ELSE C1))
Closed(c) == CDiv(First(c), CSub(C1, Rounds))
Dist(a, b) == IF a > b THEN a - b ELSE b - a
Direct == CMul(Half(Zl), El(Dist(zs, z)))

Init2 == /\ ifs \in SUBSET Ifaces /\ pool \in {"re", "cx"} /\ sh \in Shifts
         /\ zs \in Sources /\ z \in Sources /\ LayerOf(ifs, zs) = LayerOf(ifs, z)
         /\ dir = "" /\ f = <<>> /\ te \in BOOLEAN
         /\ n = 0
         /\ ray = [l \in {"u", "d"} |-> [alive |-> TRUE, d |-> l, z |-> zs, amp |-> Half(Zl)]]
         /\ acc = [c \in Classes |-> [sum |-> C0, n |-> 0]]
Bounce(l) ==
  LET r == ray[l]  at == IF r.d = "d" THEN Bot ELSE Top
  IN  IF ~r.alive \/ (r.d = "d" /\ ~HasBot) \/ (r.d = "u" /\ ~HasTop)
      THEN [r EXCEPT !.alive = FALSE]
      ELSE [alive |-> TRUE, d |-> IF r.d = "d" THEN "u" ELSE "d", z |-> at,
            amp |-> CMul(CMul(r.amp, El(Dist(r.z, at))), IF r.d = "d" THEN Rp ELSE Rm)]
Next2 ==
  /\ n < MaxRefl /\ n' = n + 1
  /\ ray' = [l \in {"u", "d"} |-> Bounce(l)]
  /\ acc' = [c \in Classes |->
       LET r == Bounce(c[2])
       IN  IF r.alive /\ r.d = c[1]
           THEN [sum |-> CAdd(acc[c].sum, CMul(r.amp, El(Dist(r.z, z)))), n |-> acc[c].n + 1]
           ELSE acc[c]]
  /\ UNCHANGED <<vars, te>>
Spec2 == Init2 /\ [][Next2]_vars2

\* After any number of reflections the rest of the geometric series is missing.
Series == \A c \in Classes :
   \/ CSub(Closed(c), acc[c].sum) = CMul(CPow(Rounds, acc[c].n), Closed(c))
   \/ (~Exists(c) /\ acc[c].n = 0)
\* All contributions and the direct part are the field.
RECURSIVE SumC(_)
SumC(S) == IF S = {} THEN C0 ELSE LET c == CHOOSE c \in S : TRUE
           IN CAdd(Closed(c), SumC(S \ {c}))
Complete == n = 0 =>
   CAdd(Direct, SumC(Classes)) = FieldAt(Ln, IF te THEN 3 ELSE 1, zs, z)[1]
\* An interface without contrast, not between source and receiver, has no
\* influence on any contribution.
Split(L, x) == LET k == LayerOf(L.s, x)
               IN  [s |-> L.s \cup {x},
                    Z |-> [i \in 1..Len(L.Z)+1 |-> L.Z[IF i <= k THEN i ELSE i-1]],
                    E |-> [i \in 1..Len(L.E)+1 |-> L.E[IF i <= k THEN i ELSE i-1]]]
\* Contributions of line L in layer k from the formula.
ClosedOf(L, c) ==
  LET k == LayerOf(L.s, zs)  s == SetToSortSeq(L.s, <)
      b == k < NL(L.s)  t == k > 1
      Rf(Zx) == CDiv(CSub(Zx, L.Z[k]), CAdd(Zx, L.Z[k]))
      rp == IF b THEN Rf(ZDn(L, s[k])) ELSE C0
      rm == IF t THEN Rf(ZUp(L, s[k-1])) ELSE C0
      l == Path(c).len
      len == (IF l[1] # 0 THEN l[1]*s[k] ELSE 0) + (IF l[2] # 0 THEN l[2]*s[k-1] ELSE 0)
             + l[3]*zs + l[4]*z
      q == IF b /\ t THEN CMul(CMul(rp, rm), CPow(L.E[k], 2*(s[k]-s[k-1]))) ELSE C0
  IN  IF (Path(c).p = 1 /\ ~b) \/ (Path(c).m = 1 /\ ~t) THEN C0
      ELSE CDiv(CMul(CMul(Half(L.Z[k]), CPow(L.E[k], len)),
                     CMul(IF Path(c).p = 1 THEN rp ELSE C1, IF Path(c).m = 1 THEN rm ELSE C1)),
                CSub(C1, q))
Transparent == n = 0 => \A x \in (Ifaces \cup Sources) \ ifs :
   LET L == Split(Ln, x)
   IN  (LayerOf(L.s, zs) = LayerOf(L.s, z)) =>
         \A c \in Classes : ClosedOf(L, c) = Closed(c)
Export2 == (n = 0 /\ te) => PrintT("@C" \o ToJson(
  [d |-> SeqIf, p |-> pool, sh |-> sh, zs |-> zs, z |-> z, l |-> Lay,
   paths |-> [c \in {"uu", "ud", "du", "dd"} |->
      LET k == CASE c = "uu" -> <<"u", "u">> [] c = "ud" -> <<"u", "d">>
                 [] c = "du" -> <<"d", "u">> [] OTHER -> <<"d", "d">>
      IN [path |-> Path(k), exists |-> Exists(k),
          tm |-> ClosedOf(Line(ifs, pool, sh, FALSE), k),
          te |-> ClosedOf(Line(ifs, pool, sh, TRUE), k)]]]))
================================================================================
