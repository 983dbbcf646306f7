-------------------------------- MODULE Adaptive --------------------------------
(***************************************************************************)
(* Quadrature with extrapolation (QWE) as a state machine, in exact          *)
(* arithmetic.  Several integrals (offsets or times) are summed up together, *)
(* interval by interval; after each interval the partial sums are            *)
(* extrapolated (epsilon algorithm), and an integral is finished as soon as  *)
(* two successive extrapolated values agree within the tolerance.            *)
(*                                                                           *)
(* The claim checked: the final flag says "converged" exactly if every       *)
(* integral reached its tolerance; integrals do not influence each other;    *)
(* finished integrals are not evaluated again.                               *)
(*                                                                           *)
(* The second part (Agg) is how flags of parts, offsets, frequencies and     *)
(* transforms are combined, and when a warning is due.                       *)
(***************************************************************************)
EXTENDS Rat, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NOff,        \* number of integrals
          Kinds,       \* series an integral may consist of
          MaxInts,     \* permitted numbers of intervals
          Tols         \* rtol = 10^-t

VARIABLES kinds, maxint, tol, atol, i, tab, ext, open, calls, phase
vars == <<kinds, maxint, tol, atol, i, tab, ext, open, calls, phase>>

ASSUME RatLoaded

Q(a, b) == CNum(a, 0, b)
Sgn(k)  == IF k % 2 = 0 THEN 1 ELSE -1
Noise   == <<3, -5, 4, 1, -2, 6, 2, -7, 1, 5, -3, 2>>
\* Contribution of interval k (0, 1, ...) to the integral.
Term(s, k) ==
  CASE s = "alt1"  -> Q(Sgn(k), k+1)
    [] s = "alt2"  -> Q(Sgn(k)*3, (k+1)*(k+1)+1)
    [] s = "mix"   -> CAdd(Q(Sgn(k), (k+1)*(k+2)), CMul(Q(2, k+6), CPow(Q(1, 3), k)))
    [] s = "slow"  -> Q(7, (k+1)*(k+2))
    [] s = "grow"  -> Q(Sgn(k)*(k+1)*(k+1), 3*k+1)
    [] s = "noise" -> Q(Noise[(k % 12)+1]*(k+2), 2)
    [] s = "fast"  -> CMul(Q(1, k+1), CPow(Q(-1, 5), k))
    [] s = "zero"  -> IF k = 0 THEN Q(3, 2) ELSE C0
    [] s = "const" -> Q(2, 1)
    [] s = "geo"   -> CPow(Q(-1, 2), k)
    [] s = "stop"  -> IF k < 4 THEN Q(Noise[k+1], 4) ELSE C0
    [] s = "late"  -> IF k < 3 THEN Q(Noise[k+1], 2) ELSE Q(Sgn(k), (k+1)*(k+3)*(k+4))

Rtol(t) == CPow(Q(1, 10), t)
IsPos(a) == CCmp(CAdd(a, C1), CSub(a, C1)) > 0
AbsR(a)  == IF IsPos(a) THEN a ELSE CNeg(a)

\* Extended by one infinite value, for the break-down of the extrapolation.
Inf == "inf"
XDiff(a, b) == IF a = Inf /\ b = Inf THEN C0
               ELSE IF a = Inf \/ b = Inf THEN Inf ELSE CSub(a, b)
XInv(d)     == IF d = C0 THEN Inf ELSE IF d = Inf THEN C0 ELSE CDiv(C1, d)
XAdd(a, b)  == IF a = Inf \/ b = Inf THEN Inf ELSE CAdd(a, b)

\* Epsilon algorithm on the moving table (Weniger): from the table after i-1
\* partial sums and the new partial sum to the table after i.
RECURSIVE Sweep(_, _, _)
Sweep(tb, k, aux2) ==           \* tb[k+1] is entry k, the last one the sum
  IF k = 0 THEN tb
  ELSE LET old == tb[k] IN
       LET new == XAdd(aux2, XInv(XDiff(tb[k+1], old))) IN
       Sweep([tb EXCEPT ![k] = new], k-1, old)

NewTab(s, tb, n) == LET t2 == Append(tb, CAdd(tb[n], Term(s, n)))
                    IN  Sweep(t2, n, C0)
\* The extrapolated tail (the plain sum if the extrapolation breaks down, i.e.
\* if the sums do not change or grow by a constant) plus the first interval.
Extrap(s, tb, n) == LET x == tb[(n % 2)+1] IN
                    CAdd(IF x = Inf THEN tb[n+1] ELSE x, Term(s, 0))

\* The partial sums, extrapolated in one go (textbook definition; the law
\* below says that the moving table gives the same).
RECURSIVE Partial(_, _)
Partial(s, n) == IF n = 0 THEN C0 ELSE CAdd(Partial(s, n-1), Term(s, n))
RECURSIVE Eps(_, _, _)
Eps(s, k, n) == IF k = -1 THEN C0
                ELSE IF k = 0 THEN Partial(s, n)
                ELSE CAdd(Eps(s, k-2, n+1),
                          CDiv(C1, CSub(Eps(s, k-1, n+1), Eps(s, k-1, n))))

Offs == 1..NOff

Init == /\ kinds \in [Offs -> Kinds]
        /\ maxint \in MaxInts
        /\ tol \in Tols
        /\ atol \in {0, 2}
        /\ i = 1
        /\ tab = [o \in Offs |-> <<C0>>]
        /\ ext = [o \in Offs |-> <<>>]
        /\ open = Offs
        /\ calls = << <<0, Offs>> >>
        /\ phase = "run"

Atol == IF atol = 0 THEN C0 ELSE CPow(Q(1, 10), atol)
Near(e) == LET n == Len(e) IN
           /\ n > 1
           /\ CCmp(CSub(e[n], e[n-1]),
                   CAdd(CMul(Rtol(tol), AbsR(e[n])), Atol)) < 0

Interval == /\ phase = "run" /\ i < maxint /\ open # {}
            /\ tab' = [o \in Offs |-> IF o \in open
                                      THEN NewTab(kinds[o], tab[o], i)
                                      ELSE tab[o]]
            /\ ext' = [o \in Offs |-> IF o \in open
                         THEN Append(ext[o], Extrap(kinds[o], tab'[o], i))
                         ELSE ext[o]]
            /\ open' = {o \in open : ~Near(ext'[o])}
            /\ calls' = Append(calls, <<i, open>>)
            /\ i' = i+1
            /\ UNCHANGED <<kinds, maxint, tol, atol, phase>>

Finish == /\ phase = "run" /\ (i = maxint \/ open = {})
          /\ phase' = "done"
          /\ UNCHANGED <<kinds, maxint, tol, atol, i, tab, ext, open, calls>>

Next == Interval \/ Finish
Spec == Init /\ [][Next]_vars

Flag == open = {}

\* --- the properties
\* The flag is set only if every integral met its tolerance in its last step.
FlagSound == phase = "done" => (Flag <=> \A o \in Offs : Near(ext[o]))
\* An integral evolves as if it were alone.
RECURSIVE Alone(_, _, _, _)
Alone(s, tb, e, n) ==
  IF n = maxint \/ Near(e) THEN e
  ELSE LET t2 == NewTab(s, tb, n) IN
       Alone(s, t2, Append(e, Extrap(s, t2, n)), n+1)
Independent == phase = "done" =>
  \A o \in Offs : ext[o] = Alone(kinds[o], <<C0>>, <<>>, 1)
\* The moving table is the epsilon algorithm.
Textbook == \A o \in Offs : LET n == Len(ext[o]) IN
  (n > 0 /\ n < 7 /\ kinds[o] \notin {"zero", "const", "geo", "stop"}) =>
    ext[o][n] = CAdd(Term(kinds[o], 0),
                     Eps(kinds[o], 2*(n \div 2), n % 2))
Frozen == [][\A o \in Offs \ open : ext'[o] = ext[o]]_vars
OnlyShrinks == [][open' \subseteq open]_vars

Export == phase = "done" =>
  PrintT("@C" \o ToJson([kinds |-> kinds, maxint |-> maxint, tol |-> tol,
     atol |-> atol, flag |-> Flag, n |-> i,
     calls |-> [k \in 1..Len(calls) |-> SetToSortSeq(calls[k][2], <)],
     ext |-> ext,
     terms |-> [o \in Offs |-> [k \in 1..maxint |-> Term(kinds[o], k-1)]]]))
================================================================================
