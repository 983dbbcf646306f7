-------------------------------- MODULE Design --------------------------------
(***************************************************************************)
(* The search for the best filter.                                           *)
(*                                                                           *)
(* A grid of NS spacings times NH shifts is searched.  At each grid point    *)
(* the filter is applied to every check pair, at the points r[1] < r[2] < .. *)
(* A pair is recovered well ("good") at some of the points; the end of the   *)
(* recovered part gives the value of the pair, the worst pair the value of   *)
(* the grid point.  State: the table of what is good, filled in step by step, *)
(* then the search, point by point, with the best so far.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NSs, NHs, NPs,   \* possible numbers of spacings, shifts, pairs
          NR               \* number of points

Inf == 100000000

VARIABLES dim,     \* [ns, nh, np, cvar, kinds]
          tab,     \* one entry per grid point and pair: bad points or "zero"
          pos,     \* next grid point to visit
          vals,    \* values so far
          best     \* best point so far
vars == <<dim, tab, pos, vals, best>>

RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k-1)
\* Amplitude of the pairs: decreasing, increasing, or with a maximum.
Amp(kind, i) == CASE kind = "fall" -> 3 * P2(NR-i)
                  [] kind = "rise" -> P2(i-1)
                  [] OTHER -> 5 * P2(IF 2*i > NR THEN NR-i ELSE i)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) :
                i < j => s[i] < s[j]
RECURSIVE Kth(_, _)
Kth(S, k) == IF k = 1 THEN Min(S) ELSE Kth(S \ {Min(S)}, k-1)
\* Last point which counts as recovered (0: none): the one before the first
\* bad one; up to four bad ones (zero crossings) may be jumped.
Max0(x) == IF x < 1 THEN 1 ELSE x
Edge(bad) == IF bad = {} THEN NR
             ELSE IF Cardinality(bad) > 4 THEN Max0(Kth(bad, 5) - 5)
             ELSE Max0(Min(bad) - 1)
\* (Nothing is recovered if that is the first point.)
Useless(e) == e.zero \/ Edge(e.bad) = 1
Value(e, kind) ==
  IF dim.cvar = "r" THEN P2(NR - Edge(e.bad))
  ELSE Amp(kind, Edge(e.bad)) * (IF Edge(e.bad) \in e.bad THEN 3 ELSE 1)
NG == dim.ns * dim.nh
Entry(g, p) == tab[(g-1)*dim.np + p]
\* The worst pair counts; a useless pair makes the filter useless.
RECURSIVE Worst(_, _)
Worst(g, p) == IF p = 0 THEN 0
               ELSE LET v == IF Useless(Entry(g, p)) THEN Inf
                             ELSE Value(Entry(g, p), dim.kinds[p])
                        w == Worst(g, p-1)
                    IN  IF v > w THEN v ELSE w
Full == dim # <<>> /\ Len(tab) = NG * dim.np

Init == dim = <<>> /\ tab = <<>> /\ pos = 0 /\ vals = <<>> /\ best = 0
Setup == /\ dim = <<>>
         /\ \E a \in NSs, b \in NHs, p \in NPs, c \in {"amp", "r"} :
              \E ks \in [1..p -> {"fall", "rise", "max"}] :
                 dim' = [ns |-> a, nh |-> b, np |-> p, cvar |-> c, kinds |-> ks]
         /\ UNCHANGED <<tab, pos, vals, best>>
\* A filter which works up to a point, one with single bad points, a useless one.
Good == {{}} \cup {i..NR : i \in 1..NR}
Fill == /\ dim # <<>> /\ ~Full
        /\ \E e \in [zero : {FALSE}, bad : Good] \cup {[zero |-> TRUE, bad |-> 1..NR]} :
             tab' = Append(tab, e)
        /\ UNCHANGED <<dim, pos, vals, best>>
\* (Later) a single point changes.
Flip == /\ Len(tab) > 0 /\ vals = <<>> /\ ~tab[Len(tab)].zero
        /\ \E i \in 1..NR :
             tab' = [tab EXCEPT ![Len(tab)].bad = IF i \in @ THEN @ \ {i} ELSE @ \cup {i}]
        /\ UNCHANGED <<dim, pos, vals, best>>
Visit == /\ Full /\ pos < NG
         /\ pos' = pos + 1
         /\ vals' = Append(vals, Worst(pos+1, dim.np))
         /\ best' = IF best = 0 \/ Worst(pos+1, dim.np) < vals[best] THEN pos + 1 ELSE best
         /\ UNCHANGED <<dim, tab>>
Next == Setup \/ Fill \/ Flip \/ Visit
Spec == Init /\ [][Next]_vars

\* The best so far is the best of what was visited (and the first of these).
Best == best > 0 =>
  /\ \A i \in 1..Len(vals) : vals[best] <= vals[i]
  /\ \A i \in 1..best-1 : vals[i] > vals[best]
\* A finite value: every pair is good up to its edge, but for at most four points.
Meaning == \A g \in 1..Len(vals) : vals[g] < Inf =>
  \A p \in 1..dim.np : LET e == Entry(g, p) IN
    /\ Cardinality({i \in e.bad : i <= Edge(e.bad)}) <= 4
    /\ ~e.zero
    /\ (dim.cvar = "r" => vals[g] >= P2(NR - Edge(e.bad)))
    /\ (dim.cvar = "amp" => vals[g] >= Amp(dim.kinds[p], Edge(e.bad)))
Export == (Full /\ pos = NG) => PrintT("@C" \o ToJson(
   [dim |-> dim, tab |-> tab, vals |-> vals, best |-> best]))
================================================================================
