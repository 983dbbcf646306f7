------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What a call prints.                                                       *)
(*                                                                           *)
(* Something unusual about a call (a reason) is reported by one warning, as  *)
(* soon as the verbosity is at least 1; the levels 2, 3, 4 add the run time  *)
(* with the number of kernel calls, the start with a summary of the values   *)
(* which are used, and all the values.  What a level prints is never taken   *)
(* away by a higher level, and level 0 prints nothing.                       *)
(*                                                                           *)
(* Some reasons are plain (a value below its minimum, an unknown option, an  *)
(* unused keyword).  Others are coincidences: the current density or the     *)
(* flux is wanted, by at least one of the sources or receivers, in a layer   *)
(* in which the medium parameter it is computed with is anisotropic; the     *)
(* quadrature misses its tolerance for at least one pair, which is as close  *)
(* in depth as only sources and receivers in the same layer are.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Routines, MaxReasons, Verbs

VARIABLES c, stage
vars == <<c, stage>>

IsBipole(r) == r \in {"bipole", "loop"}
HasFt(r)    == r \in {"bipole", "loop", "dipole"}
HasHt(r)    == r \in {"bipole", "loop", "dipole", "ip_and_q"}

\* Layers, from above to below.
Layers == 1..3
Range(q) == { q[i] : i \in 1..Len(q) }

\* Reasons a call can be given.
Plain(r, d) ==
  {"res", "aniso", "eperm", "off", "unused"}
  \cup (IF d = "time" THEN {"time"} ELSE {"freq"})
  \cup (IF HasHt(r) THEN {"htarg"} ELSE {})
  \cup (IF HasFt(r) /\ d = "time" THEN {"ftarg"} ELSE {})

\* --- warnings ------------------------------------------------------------------
Close(k) == Range(k.from) \cap Range(k.at)     \* layers with both

\* Layers in which the conductivity is anisotropic (a value below its minimum is in 1).
Electric(k) == {k.el} \cup (IF "aniso" \in k.reasons THEN {1} ELSE {})

\* Few intervals are too few for whoever is close; if they are too few if there are more of
\* them is found out part by part (one frequency, one receiver), and the whole misses its
\* tolerance if a part does (a very different frequency is somewhere in the row).
Missed(k) == k.quad = "few" /\ Close(k) # {}
ByParts(k) == k.quad = "more"

Warned(k) ==
  k.reasons
  \cup (IF k.rtype = "j" /\ Electric(k) \cap Range(k.at) # {} THEN {"current"} ELSE {})
  \cup (IF k.stype = "b" /\ k.ml \in Range(k.from) THEN {"srcflux"} ELSE {})
  \cup (IF k.rtype = "b" /\ k.ml \in Range(k.at) THEN {"recflux"} ELSE {})
  \cup (IF Missed(k) THEN {"hconv"} ELSE {})
  \cup (IF k.fquad = "hard" THEN {"fconv"} ELSE {})
  \cup (IF k.routine = "ip_and_q" /\ Range(k.from) # Range(k.at) THEN {"depths"} ELSE {})

Lines(k, v) ==
  (IF v >= 1 THEN { <<"warning", w>> : w \in Warned(k) } ELSE {})
  \cup (IF v >= 2 THEN {<<"end", "runtime">>} ELSE {})
  \cup (IF v >= 3 THEN {<<"start", "">>, <<"summary", "">>} ELSE {})
  \cup (IF v >= 4 THEN {<<"all", "">>} ELSE {})

\* --- number of kernel calls (digital filtering) --------------------------------------
Max2(a, b) == IF a > b THEN a ELSE b
\* (One value more which is below the minimum.)
NFreq(k) == k.nf + (IF k.reasons \cap {"freq", "time"} # {} THEN 1 ELSE 0)
NRec(k) == Len(k.at)
NPairs(k) == Len(k.at) * Len(k.from)
\* Sources (receivers) in the same depth are computed together.
Groups(q) == IF Cardinality(Range(q)) = 1 THEN 1 ELSE Len(q)
Kernels(k) ==
  LET loops == IF k.quad # "no" THEN 0      \* (counted differently)
               ELSE IF k.loop = "freq" THEN NFreq(k)
               ELSE IF k.loop = "off" THEN NPairs(k) \div (Groups(k.at) * Groups(k.from))
               ELSE 1
      pts   == IF IsBipole(k.routine) THEN k.pts ELSE 1
  IN loops * pts * Groups(k.at) * Groups(k.from)

\* --- the summary: values in the order from above to below, at least the minimum ------
Given(k) == IF k.order = "down" THEN <<1, 2, 3>> ELSE <<3, 2, 1>>
Reported(k) == IF k.order = "down" THEN Given(k)
               ELSE [i \in 1..3 |-> Given(k)[4 - i]]

\* Who is reported, in which order: every group of sources, each followed by the groups
\* of receivers which are computed for it.
Members(q) == IF Groups(q) = 1 THEN << [i \in 1..Len(q) |-> i] >>
              ELSE [i \in 1..Len(q) |-> <<i>>]
RECURSIVE Blocks(_, _, _)
Blocks(ss, rs, j) ==
  IF ss = <<>> THEN <<>>
  ELSE IF j = 0 THEN << <<"src", Head(ss)>> >> \o Blocks(ss, rs, 1)
  ELSE IF j > Len(rs) THEN Blocks(Tail(ss), rs, 0)
  ELSE << <<"rec", rs[j]>> >> \o Blocks(ss, rs, j + 1)

Froms == {<<1>>, <<2>>, <<3>>, <<2, 2>>, <<3, 1>>, <<2, 3>>}
Ats == {<<1>>, <<2>>, <<3>>, <<3, 3>>, <<2, 2, 2, 2>>, <<1, 2>>, <<3, 1>>, <<3, 2, 3>>,
        <<2, 3, 1, 3>>}
\* (Fewer, for all behaviours.)
FewFroms == {<<2>>, <<3, 1>>}
FewAts == {<<3>>, <<3, 2, 3>>}

\* --- building up a call ------------------------------------------------------------
Init == /\ stage = "routine"
        /\ c = [routine |-> "", domain |-> "freq", reasons |-> {}, el |-> 0, ml |-> 0,
                stype |-> "e", rtype |-> "e", order |-> "down", loop |-> "none",
                from |-> <<2>>, at |-> <<3>>, quad |-> "no", high |-> 0, fquad |-> "no",
                nf |-> 1, pts |-> 1, verb |-> 0]

Routine == /\ stage = "routine" /\ stage' = "reasons"
           /\ \E r \in Routines : \E d \in {"freq", "time"} :
                /\ d = "time" => HasFt(r) \/ r = "analytical"
                /\ c' = [c EXCEPT !.routine = r, !.domain = d]
Reason == /\ stage = "reasons" /\ Cardinality(c.reasons) < MaxReasons
          /\ \E x \in Plain(c.routine, c.domain) \ c.reasons :
               /\ (x = "res" /\ "aniso" \in c.reasons) = FALSE
               /\ (x = "aniso" /\ "res" \in c.reasons) = FALSE
               /\ c' = [c EXCEPT !.reasons = @ \cup {x}]
          /\ UNCHANGED stage
Enough == stage = "reasons" /\ stage' = "places" /\ UNCHANGED c
\* Sources in one or two layers, receivers in one or several.
Several(q) == Cardinality(Range(q)) > 1
Places == /\ stage = "places" /\ stage' = "medium"
          /\ \E s \in Froms : \E r \in Ats :
               /\ Several(s) \/ Several(r) => IsBipole(c.routine)
               /\ Len(s) > 1 => c.routine # "ip_and_q" /\ ~ ("off" \in c.reasons)
               /\ c.routine = "analytical" => Range(s) # Range(r)
               /\ c' = [c EXCEPT !.from = s, !.at = r]
Media == /\ stage = "medium" /\ stage' = "media"
         /\ \E o \in {"down", "up"} : \E e \in 0..3 : \E m \in 0..3 :
              /\ IsBipole(c.routine) \/ (e = 0 /\ m = 0)
              /\ "aniso" \in c.reasons => e # 1     \* (its value is in this layer)
              /\ c' = [c EXCEPT !.order = o, !.el = e, !.ml = m]
Ends == /\ stage = "media" /\ stage' = "loops"
        /\ \E s \in {"e", "m", "b"} : \E r \in {"e", "m", "b", "j"} :
             /\ IsBipole(c.routine) \/ (s = "e" /\ r = "e")
             /\ c.routine = "loop" => s = "b" /\ r \in {"b"}
             /\ c' = [c EXCEPT !.stype = s, !.rtype = r]
Loops == /\ stage = "loops" /\ stage' = "quad"
         /\ \E l \in {"none", "freq", "off"} : \E f \in {1, 2, 4} : \E p \in {1, 3} :
              /\ HasHt(c.routine) \/ l = "none"
              /\ IsBipole(c.routine) \/ p = 1
              /\ (c.el # 0 /\ c.ml # 0) => l = "none" /\ f = 1
              /\ c' = [c EXCEPT !.loop = l, !.nf = f, !.pts = p]
Quad == /\ stage = "quad" /\ stage' = "verb"
        /\ \E q \in {"no", "few", "more"} : \E f \in {"no", "easy", "hard"} :
           \E h \in 0..c.nf :
             /\ q # "no" => (c.stype = "e") = (c.rtype \in {"e", "j"})
             /\ q = "more" => c.el = 0 /\ c.ml = 0 /\ Len(c.from) = 1
             /\ h > 0 => q = "more" /\ ~ ("freq" \in c.reasons)
             /\ q # "no" => HasFt(c.routine) /\ c.domain = "freq" /\ ~ ("off" \in c.reasons)
             /\ f # "no" => HasFt(c.routine) /\ c.domain = "time" /\ ~ ("off" \in c.reasons)
             /\ c' = [c EXCEPT !.quad = q, !.fquad = f, !.high = h]
Verb == /\ stage = "verb" /\ stage' = "done"
        /\ \E v \in Verbs : c' = [c EXCEPT !.verb = v]

Next == Routine \/ Reason \/ Enough \/ Media \/ Places \/ Ends \/ Loops \/ Quad \/ Verb
Spec == Init /\ [][Next]_vars

\* --- properties -----------------------------------------------------------------------
Silent == Lines(c, 0) = {}
Monotone == \A v \in 0..3 : Lines(c, v) \subseteq Lines(c, v + 1)
\* Nothing unusual, no warning; each reason has its warning, whatever else there is.
Warranted == /\ c.reasons \subseteq Warned(c)
             /\ (c.reasons = {} /\ c.el = 0 /\ c.ml = 0 /\ c.quad = "no" /\ c.fquad # "hard"
                 /\ (c.routine = "ip_and_q" => Range(c.from) = Range(c.at))) => Warned(c) = {}
\* Electric anisotropy is no reason for a warning about the flux and vice versa, and an
\* anisotropic layer in which there is nobody is no reason at all.
Separate == /\ c.el = 0 /\ ~ ("aniso" \in c.reasons) => "current" \notin Warned(c)
            /\ c.ml \notin (Range(c.from) \cup Range(c.at)) =>
                 Warned(c) \cap {"srcflux", "recflux"} = {}
\* Everybody is reported at least once, and every pair comes together exactly once.
Everybody ==
  LET b == Blocks(Members(c.from), Members(c.at), 0)
      src(i) == CHOOSE j \in 1..i : b[j][1] = "src" /\ \A l \in (j + 1)..i : b[l][1] = "rec"
  IN stage = "done" => \A s \in 1..Len(c.from) : \A r \in 1..Len(c.at) :
       Cardinality({ i \in 1..Len(b) : b[i][1] = "rec" /\ r \in Range(b[i][2])
                                       /\ s \in Range(b[src(i)][2]) }) = 1
\* One is enough, wherever in the row it is.
OneIsEnough ==
  \A i \in 1..Len(c.at) :
    LET one == [c EXCEPT !.at = <<c.at[i]>>] IN
    Warned(one) \subseteq Warned(c) \cup {"depths"}
\* The summary does not depend on the order in which the layers are given.
Ordered == Reported(c) = <<1, 2, 3>>

Export == stage = "done" =>
  PrintT("@C" \o ToJson([call |-> c, warned |-> Warned(c), kernels |-> Kernels(c),
                         given |-> Given(c), byparts |-> ByParts(c),
                         blocks |-> Blocks(Members(c.from), Members(c.at), 0), nf |-> NFreq(c), nrec |-> NRec(c),
                         lines |-> { l[1] : l \in Lines(c, c.verb) }]))
=============================================================================
