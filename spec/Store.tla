------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Saving and loading of data and of inputs: files and what they hold.       *)
(*                                                                           *)
(* A file is what was saved last in it: results (three-dimensional, real or   *)
(* complex), or an input (a nested dictionary).  Text and JSON are two        *)
(* formats of results, JSON the one of inputs.  A refused save leaves the     *)
(* files as they are.                                                         *)
(*                                                                           *)
(* Results are described by shape, type, and the classes of their numbers;    *)
(* inputs by trees of kinds of values, for which Norm is the value that       *)
(* comes back.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,       \* "data", "input"
          Files,      \* numbers of files; even: text, odd: JSON
          Dims,       \* possible lengths
          Classes,    \* classes of numbers
          Leaves,     \* kinds of scalar values
          Arrays,     \* kinds of arrays
          Depth, StackMax, MaxLen

VARIABLES disk,    \* file -> what it holds
          stack,   \* the user prepares the next thing to save here
          log
vars == <<disk, stack, log>>

Fmt(f) == IF f % 2 = 0 THEN "txt" ELSE "json"
Nothing == [what |-> "nothing"]

(*************************** Results *****************************************)

(*************************** Inputs ******************************************)
Leaf(k) == [k |-> k, c |-> <<>>]
Node(k, c) == [k |-> k, c |-> c]
Containers == {"list", "tuple", "dict"}
RECURSIVE Weight(_)
Weight(t) == IF t.c = <<>> THEN 0
             ELSE 1 + (LET S(i) == Weight(t.c[i])
                       IN IF Len(t.c) = 1 THEN S(1)
                          ELSE IF Len(t.c) = 2 THEN S(1) + S(2)
                          ELSE S(1) + S(2) + S(3))
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE Weight(Head(s)) + Size(Tail(s))
\* What comes back.
NormLeaf == [ npint |-> "int", npfloat |-> "float", npbool |-> "bool",
              int |-> "int", float |-> "float", bool |-> "bool",
              none |-> "none", str |-> "str", nan |-> "nan", inf |-> "inf",
              filter |-> "str"]
RECURSIVE Norm(_)
Norm(t) ==
    IF t.k \in Containers
    THEN Node(IF t.k = "dict" THEN "dict" ELSE "list",
              [i \in 1..Len(t.c) |-> Norm(t.c[i])])
    ELSE IF t.k \in DOMAIN NormLeaf THEN Leaf(NormLeaf[t.k])
    ELSE CASE t.k = "complex" -> Node("list", <<Leaf("float"), Leaf("float")>>)
           [] t.k = "arr0"    -> Leaf("float")
           [] t.k = "arr1"    -> Node("list", <<Leaf("float"), Leaf("float")>>)
           [] t.k = "arrint"  -> Node("list", <<Leaf("int"), Leaf("int")>>)
           [] t.k = "arrbool" -> Node("list", <<Leaf("bool"), Leaf("bool")>>)
           [] t.k = "arrempty" -> Node("list", <<>>)
           [] t.k = "arr2"    -> Node("list", <<Norm(Leaf("arr1")), Norm(Leaf("arr1"))>>)
           [] t.k = "arrc"    -> Node("list", <<Norm(Leaf("arr1")), Norm(Leaf("arr1"))>>)
           [] t.k = "emarr"   -> Node("list", <<Norm(Leaf("arr1")), Norm(Leaf("arr1"))>>)
RECURSIVE Plain(_)
Plain(t) == IF t.k \in Containers
            THEN t.k # "tuple" /\ \A i \in 1..Len(t.c) : Plain(t.c[i])
            ELSE t.k \in {"int", "float", "bool", "none", "str", "nan", "inf"}
(*************************** Histories ***************************************)
Init == disk = [f \in Files |-> Nothing] /\ stack = <<>> /\ log = <<>>
Room == Len(log) < MaxLen
Ev(e, f, x) == [e |-> e, f |-> f, x |-> x]
Top == stack[Len(stack)]
\* Results: shape, type, classes of numbers, information.
Choices == << Dims, Dims, Dims, BOOLEAN, Classes, Classes, Classes, Classes,
              {"none", "plain", "colon", "datum", "hash", "accent"} >>
Prepare ==
    /\ Room /\ UNCHANGED <<disk, log>>
    /\ IF Mode = "data"
       THEN /\ Len(stack) < Len(Choices)
            /\ \E c \in Choices[Len(stack)+1] : stack' = Append(stack, c)
       ELSE \/ /\ Len(stack) < StackMax
               /\ \E k \in Leaves \cup Arrays \cup Containers :
                     stack' = Append(stack, Leaf(k))
            \* The last n trees become the elements of a container.
            \/ \E k \in Containers, n \in 1..3 :
                 /\ n <= Len(stack)
                 /\ Size(stack) < Depth
                 /\ stack' = Append(SubSeq(stack, 1, Len(stack)-n),
                        Node(k, SubSeq(stack, Len(stack)-n+1, Len(stack))))
Prepared == IF Mode = "data"
    THEN [what |-> "data", shape |-> SubSeq(stack, 1, 3), cplx |-> stack[4],
          re |-> SubSeq(stack, 5, 6), im |-> SubSeq(stack, 7, 8), info |-> stack[9]]
    ELSE [what |-> "input", tree |-> Node("dict", stack)]
Ready == Mode = "data" => Len(stack) = Len(Choices)
Save(f) == /\ Room /\ Ready
           /\ disk' = [disk EXCEPT ![f] = Prepared]
           /\ log' = Append(log, Ev("save", f, Prepared))
           /\ stack' = <<>>
\* Refused saves: wrong dimensions, unknown format, impossible values.
Refused(f) == /\ Room
              /\ \E w \in (IF Mode = "data" THEN {"dim2", "dim4", "dim0", "suffix"}
                           ELSE {"suffix", "function"}) :
                   log' = Append(log, Ev("refused", f, [what |-> w]))
              /\ UNCHANGED <<disk, stack>>
\* What a load returns.
Content(x) == IF x.what = "input" THEN [what |-> "input", tree |-> Norm(x.tree)]
              ELSE x
\* (Whoever reads, whatever the language and encoding of their system.)
Readers == IF Mode = "data" THEN {"same", "foreign"} ELSE {"same"}
Load(f) == /\ Room
           /\ \E r \in Readers :
                log' = Append(log, [e |-> "load", f |-> f, x |-> Content(disk[f]), by |-> r])
           /\ UNCHANGED <<disk, stack>>
\* What was loaded is saved elsewhere.
Copy(f, g) == /\ Room /\ f # g /\ disk[f] # Nothing
              /\ disk' = [disk EXCEPT ![g] = Content(disk[f])]
              /\ log' = Append(log, Ev("copy", f, [what |-> "file", to |-> g]))
              /\ UNCHANGED stack
Next == Prepare \/ \E f \in Files : Save(f) \/ Refused(f) \/ Load(f)
                         \/ \E g \in Files : Copy(f, g)
Spec == Init /\ [][Next]_vars

\* Loading what was copied gives what loading the original gave.
CopyFaithful == [][\A f, g \in Files :
    Copy(f, g) => Content(disk'[g]) = Content(disk[f])]_vars
\* One step changes at most one file.
OneFile == [][Cardinality({f \in Files : disk'[f] # disk[f]}) <= 1]_vars
\* The plain form of an input is final.
Final == \A f \in Files : disk[f].what = "input" =>
            LET n == Norm(disk[f].tree)
            IN Plain(n) /\ Norm(n) = n /\ (Plain(disk[f].tree) => n = disk[f].tree)
Export == Len(log) >= MaxLen => PrintT("@C" \o ToJson([log |-> log]))
================================================================================
