------------------------------ MODULE Scaling -------------------------------
(***************************************************************************)
(* (1) Which values a vector of frequencies stands for.                      *)
(* (2) The group of scalings which leave Maxwell's equations as they are.    *)
(* (3) A path in the complex plane, from frequencies to Laplace values.      *)
(*                                                                           *)
(* Scaling.  With lengths times l, s (or frequencies) times c, conductivity  *)
(* and s times permittivity times a, permeability times m, the equations     *)
(*    curl E = -s mu H - K,   curl H = (sigma + s eps) E + J                 *)
(* stay the same if the wavenumber scales with 1/l, that is a c m l^2 = 1.   *)
(* All factors are powers of one base; the state holds the exponents.  The   *)
(* dimension of the field follows from the equations: point sources scale    *)
(* as l^-3 (per volume), E = J/(sigma), H = E/(s mu l), and so forth.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxE, MaxF

VARIABLES kind, sc, fr, path, opt
vars == <<kind, sc, fr, path, opt>>

\* ---- (1)
Signs == {"neg", "small neg", "zero", "small pos", "pos"}
\* Size (in units of the smallest frequency allowed: 2 means above).
Above(x) == x \in {"neg", "pos"}
Laplace(f) == \A i \in 1..Len(f) : f[i] \notin {"pos", "small pos"}
\* What each entry stands for: its size, or the minimum.
Meaning(f) ==
  [i \in 1..Len(f) |->
     [domain |-> IF Laplace(f) THEN "s" ELSE "f",
      value |-> IF Laplace(f)
                THEN (IF f[i] = "neg" THEN "size" ELSE "minimum")
                ELSE (IF f[i] = "pos" THEN "size" ELSE "minimum")]]

\* ---- (2)
Gens == { [l |-> 1, a |-> 0, c |-> 0, m |-> -2], [l |-> 1, a |-> -2, c |-> 0, m |-> 0],
          [l |-> 1, a |-> 0, c |-> -2, m |-> 0], [l |-> 0, a |-> 1, c |-> -1, m |-> 0],
          [l |-> 0, a |-> 0, c |-> 1, m |-> -1], [l |-> 0, a |-> 1, c |-> 0, m |-> -1] }
Id == [l |-> 0, a |-> 0, c |-> 0, m |-> 0]
Mul(x, y, g) == [l |-> x.l + g*y.l, a |-> x.a + g*y.a, c |-> x.c + g*y.c, m |-> x.m + g*y.m]
\* Exponents of the fields.  An electric dipole (I dl) has J = p/l^3.
\* E = J/eta; H = curl-free combination: H l^-1 = J; a magnetic dipole has
\* K = p/l^3 with H = K/zeta, E l^-1 = K.
Exponent(ab, x) ==
  LET rec == IF ab \div 10 < 4 THEN "e" ELSE "m"
      src == IF ab % 10 < 4 THEN "e" ELSE "m"
  IN CASE rec = "e" /\ src = "e" -> (-3)*x.l - x.a
       [] rec = "m" /\ src = "e" -> (-2)*x.l
       [] rec = "e" /\ src = "m" -> (-2)*x.l
       [] rec = "m" /\ src = "m" -> (-3)*x.l - (x.c + x.m)
\* Impulse responses are per time; the step responses are not.
Time(signal, x) == IF signal = "impulse" THEN x.c ELSE 0
\* Permittivity times frequency scales as the conductivity.
Permittivity(x) == x.a - x.c
\* Finite sources and receivers with a moment: times their lengths.
Moment(x) == 2*x.l

\* ---- (3)
Angles == <<90, 80, 45, 0>>

Init == /\ kind = "" /\ sc = Id /\ fr = <<>> /\ path = <<>> /\ opt = [o |-> "none"]
Start == kind = "" /\ kind' \in Kinds /\ UNCHANGED <<sc, fr, path, opt>>

AddF == /\ kind = "sign" /\ Len(fr) < MaxF /\ opt.o = "none"
        /\ \E x \in Signs : fr' = Append(fr, x)
        /\ UNCHANGED <<kind, sc, path, opt>>
AskF == /\ kind = "sign" /\ fr # <<>> /\ opt.o = "none"
        /\ \E r \in {"dipole", "bipole", "loop", "fs", "dfs", "dhs", "dsplit", "dipole_k"},
             ht \in {"dlf", "quad", "qwe"} :
             /\ ht # "dlf" => r = "dipole"
             /\ opt' = [o |-> "asked", r |-> r, ht |-> ht]
        /\ UNCHANGED <<kind, sc, fr, path>>

Apply == /\ kind = "scale" /\ opt.o = "none"
         /\ \E g \in Gens, d \in {1, -1} :
              LET x == Mul(sc, g, d) IN
              /\ \A k \in DOMAIN x : x[k] \in (-MaxE)..MaxE
              /\ sc' = x
         /\ UNCHANGED <<kind, fr, path, opt>>
AskS == /\ kind = "scale" /\ opt.o = "none" /\ sc # Id
        /\ \E r \in {"dipole", "bipole", "moment", "fs", "dhs", "loop"},
             d \in {"f", "s", "impulse", "on", "off"},
             h \in {"standard", "lagged", "spline", "quad", "qwe"}, x \in {"yes", "no", "none"} :
             /\ r \in {"fs", "dhs"} => h = "standard" /\ x = "no"
             /\ r = "fs" => d \in {"f", "s"}
             \* (Its steady state is evaluated at a fixed, late time.)
             \* (Diffusive solutions know no permeability.)
             /\ r = "dhs" => d # "off" /\ sc.m = 0
             /\ h \in {"quad", "qwe"} => r = "dipole" /\ d = "f"
             /\ opt' = [o |-> "asked", r |-> r, d |-> d, h |-> h, x |-> x]
        /\ UNCHANGED <<kind, sc, fr, path>>

AddP == /\ kind = "path" /\ Len(path) < Len(Angles)
        /\ path' = Append(path, Angles[Len(path)+1])
        /\ UNCHANGED <<kind, sc, fr, opt>>
AskP == /\ kind = "path" /\ Len(path) = Len(Angles) /\ opt.o = "none"
        /\ \E r \in {"dipole", "bipole", "fs"}, n \in 1..3, x \in {"yes", "no", "none"} :
             /\ r = "fs" => n = 1 /\ x = "no"
             /\ n = 1 => x # "none"
             /\ opt' = [o |-> "asked", r |-> r, n |-> n, x |-> x]
        /\ UNCHANGED <<kind, sc, fr, path>>

Next == Start \/ AddF \/ AskF \/ Apply \/ AskS \/ AddP \/ AskP
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The wavenumber scales with the inverse length, whichever way one went.
Wavenumber == sc.a + sc.c + sc.m + 2*sc.l = 0
\* Fields of the same source are related by the equations (Faraday, Ampere).
Consistent ==
  /\ Exponent(41, sc) = Exponent(11, sc) - sc.l - (sc.c + sc.m)
  /\ Exponent(11, sc) = Exponent(41, sc) - sc.l - sc.a
  /\ Exponent(14, sc) = Exponent(44, sc) - sc.l - sc.a
  /\ Exponent(44, sc) = Exponent(14, sc) - sc.l - (sc.c + sc.m)
  /\ \A ab \in {11, 41, 14, 44} :     \* reciprocity
       Exponent(ab, sc) = Exponent(10*(ab % 10) + ab \div 10, sc)
OneDomain == \A i \in 1..Len(fr) : \A j \in 1..Len(fr) :
               Meaning(fr)[i].domain = Meaning(fr)[j].domain
Order == \* whether values are Laplace values is no matter of order
  \A i \in 1..Len(fr) : fr[i] \in {"pos", "small pos"} => Meaning(fr)[1].domain = "f"

Export == opt.o = "asked" =>
  PrintT("@C" \o ToJson([kind |-> kind, opt |-> opt, sc |-> sc, fr |-> fr,
     meaning |-> Meaning(fr), path |-> path,
     ex |-> IF kind = "scale"
            THEN [ee |-> Exponent(11, sc), me |-> Exponent(41, sc), em |-> Exponent(14, sc),
                  mm |-> Exponent(44, sc), eps |-> Permittivity(sc), mom |-> Moment(sc),
                  time |-> Time(opt.d, sc)]
            ELSE [ee |-> 0]]))
=============================================================================
