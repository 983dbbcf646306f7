------------------------------ MODULE Agreement ------------------------------
(***************************************************************************)
(* Several transforms evaluate the same component of the field.  A method   *)
(* either meets its tolerance - then its value is the value of the          *)
(* component - or it does not, and then it has to report it.                *)
(*                                                                           *)
(* A component is a sum of up to three integrals (with the kernels of J0,   *)
(* of J1 and of the angle-dependent J0); a method has to add all of those   *)
(* the component has, each with its factor, whatever the other ones are.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Methods, Depth

Abs == { 10*i + j : i \in 1..6, j \in 1..6 } \ {36, 63}

\* Which integrals the component ab (receiver a, source b) has; a magnetic
\* source or receiver is an electric one with the media exchanged.
Hor(i) == i \in {1, 2, 4, 5}
Integrals(ab) ==
  LET r == ab \div 10
      s == ab % 10
      mag(i) == i > 3
  IN IF Hor(r) /\ Hor(s)
     THEN \* The perpendicular components (of the same kind parallel, of
          \* different kinds crossed) have the isotropic part.
          LET para == (r % 3) = (s % 3)
          IN IF (mag(r) = mag(s)) = para THEN {"J0", "J1", "J0b"} ELSE {"J1", "J0b"}
     ELSE IF Hor(r) \/ Hor(s) THEN {"J1"} ELSE {"J0"}

VARIABLES ab, direct, noff, walk, sums, claims
vars == <<ab, direct, noff, walk, sums, claims>>

Init == /\ ab = 11 /\ direct = FALSE /\ noff = 0
        /\ walk = <<>> /\ sums = <<>> /\ claims = <<>>

\* The component, whether the direct field is part of the integrals, the
\* number of receivers.
Choose == /\ noff = 0
          /\ \E q \in Abs : \E d \in BOOLEAN : \E n \in 1..2 :
               ab' = q /\ direct' = d /\ noff' = n
          /\ UNCHANGED <<walk, sums, claims>>

\* A method evaluates the integrals one by one.
Evaluate(m) ==
  /\ noff > 0 /\ Len(walk) < Depth
  /\ \A i \in DOMAIN walk : walk[i] # m
  /\ \E missed \in SUBSET Integrals(ab) :
       /\ sums' = Append(sums, [k \in Integrals(ab) |-> k \notin missed])
       /\ claims' = Append(claims, missed = {})
  /\ walk' = Append(walk, m)
  /\ UNCHANGED <<ab, direct, noff>>

Next == Choose \/ \E m \in Methods : Evaluate(m)
Spec == Init /\ [][Next]_vars

\* Methods which do not report anything agree with each other...
Agree == \A i, j \in DOMAIN walk : claims[i] /\ claims[j] => sums[i] = sums[j]
\* ... and a missed integral is reported, whichever it is.
Reported == \A i \in DOMAIN walk : (\E k \in Integrals(ab) : ~sums[i][k]) => ~claims[i]
\* Every kind of component occurs.
Kinds == { Integrals(q) : q \in Abs } =
           { {"J0"}, {"J1"}, {"J1", "J0b"}, {"J0", "J1", "J0b"} }

Export == (Len(walk) = Depth /\ \A i \in DOMAIN walk : claims[i]) =>
            PrintT("@C" \o ToJson([ab |-> ab, direct |-> direct, noff |-> noff,
                                   walk |-> walk, n |-> Cardinality(Integrals(ab)),
                                   parts |-> Integrals(ab)]))
=============================================================================
