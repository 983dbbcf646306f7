------------------------------- MODULE Phase -------------------------------
(***************************************************************************)
(* Amplitude and phase of a result.                                          *)
(*                                                                           *)
(* A result is a matrix (rows of equal length) of cells: amplitude a >= 0     *)
(* and phase p, in 2*H parts of a turn, -H <= p <= H (-H and H: the two sides *)
(* of the negative real axis).  Rows are unwrapped one by one.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS H, Phases, Amps, NRow, NCol, MaxLen

VARIABLES m,      \* the result
          log     \* operations and calls
vars == <<m, log>>

Abs(x) == IF x < 0 THEN -x ELSE x
Cell == [a : Amps, p : Phases]
\* The jump between neighbours, reduced to (-H, H]; a jump of exactly half a
\* turn can be taken either way.
Red(d) == LET r == ((d + H) % (2*H)) - H
          IN IF (r = (0 - H)) /\ (d > 0) THEN H ELSE r
RECURSIVE Un(_, _)
Un(s, acc) == IF s = <<>> THEN acc
              ELSE IF acc = <<>> THEN Un(Tail(s), <<Head(s)>>)
              ELSE LET l == acc[Len(acc)]
                   IN Un(Tail(s), Append(acc, l + Red(Head(s) - l)))
Unwrap(s) == Un(s, <<>>)
Row(r) == [i \in 1..Len(m[r]) |-> m[r][i].p]
Neg(s) == [i \in 1..Len(s) |-> -s[i]]
Tie(s) == \E i \in 2..Len(s) : (Abs(s[i] - s[i-1]) % (2*H)) = H

\* What pha() returns (in parts of a turn), by option.
Pha(unwrap, lag) == [r \in 1..Len(m) |->
    LET s == IF lag THEN Row(r) ELSE Neg(Row(r))
    IN IF unwrap THEN Unwrap(s) ELSE s]
Ties == \E r \in 1..Len(m) : Tie(Row(r))

(*************************** Operations **************************************)
Wrap(p) == IF p > H THEN p - 2*H ELSE IF p < (0 - H) THEN p + 2*H ELSE p
Map(f(_)) == [r \in 1..Len(m) |-> [i \in 1..Len(m[r]) |-> f(m[r][i])]]
Id(c) == c
Conj(c) == [c EXCEPT !.p = -@]
Double(c) == [c EXCEPT !.a = 2 * @]
Turn(c) == [c EXCEPT !.p = IF Abs(@) = H THEN 0 - (H \div 2) ELSE Wrap(@ + (H \div 2))]
Ops == {"new", "copy", "conj", "double", "turn", "rows", "cols", "reverse"}
Apply(o) ==
    CASE o = "conj" -> Map(Conj) [] o = "double" -> Map(Double)
      [] o = "turn" -> Map(Turn)
      [] o = "rows" -> SubSeq(m, 1, Len(m)-1)
      [] o = "cols" -> [r \in 1..Len(m) |-> SubSeq(m[r], 2, Len(m[r]))]
      [] o = "reverse" -> [r \in 1..Len(m) |-> [i \in 1..Len(m[r]) |-> m[r][Len(m[r])+1-i]]]
      [] OTHER -> m
Init == m = <<>> /\ log = <<>>
Room == Len(log) < MaxLen
\* The result is built cell by cell (column by column).
Fill == /\ log = <<>>
        /\ \/ m = <<>> /\ \E n \in 1..NRow : m' = [r \in 1..n |-> <<>>]
           \/ /\ m # <<>> /\ Len(m[Len(m)]) < NCol
              /\ LET r == CHOOSE q \in 1..Len(m) :
                            /\ \A x \in 1..Len(m) : Len(m[q]) <= Len(m[x])
                            /\ \A x \in 1..q-1 : Len(m[x]) > Len(m[q])
                 IN \E c \in Cell : m' = [m EXCEPT ![r] = Append(@, c)]
        /\ UNCHANGED log
Full == m # <<>> /\ \A r \in 1..Len(m) : Len(m[r]) = Len(m[1])
Do(o) == /\ Room /\ Full
         /\ (o = "rows" => Len(m) > 1) /\ (o = "cols" => Len(m[1]) > 0)
         /\ (o = "new" => log = <<>>) /\ (o # "new" => log # <<>>)
         /\ m' = Apply(o)
         /\ log' = Append(log, [op |-> o, m |-> m', deg |-> FALSE, unwrap |-> FALSE,
                                lag |-> FALSE, want |-> <<>>, tie |-> FALSE])
Call == /\ Room /\ Full /\ log # <<>>
        /\ \E d, u, l \in BOOLEAN :
             log' = Append(log, [op |-> "pha", m |-> m, deg |-> d, unwrap |-> u,
                                 lag |-> l, want |-> Pha(u, l), tie |-> Ties])
        /\ UNCHANGED m
Next == Fill \/ Call \/ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

(*************************** Laws ********************************************)
\* (Of every row of the result.)
Laws == Full => \A r \in 1..Len(m) :
    LET s == Row(r)
        u == Unwrap(s)
    IN /\ \A i \in 1..Len(s) : ((u[i] - s[i]) % (2*H)) = 0
       /\ \A i \in 2..Len(s) : Abs(u[i] - u[i-1]) <= H
       /\ (s # <<>> => u[1] = s[1])
       /\ Unwrap(u) = u
       /\ Unwrap(Neg(s)) = Neg(u) \/ Tie(s)
Export == Len(log) >= MaxLen => PrintT("@C" \o ToJson([log |-> log]))
================================================================================
