--------------------------------- MODULE Parts ----------------------------------
(***************************************************************************)
(* One quadrature evaluates up to three kernels (J0, J1, J0b), each real and *)
(* imaginary part separately.  The flag is "converged" exactly if no part    *)
(* missed its tolerance.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Kernels == {"J0", "J1", "J0b"}
States  == {"absent", "ok", "re", "im", "both"}    \* which parts miss
VARIABLES st, seen, flag
Init == st \in [Kernels -> States] /\ seen = {} /\ flag = TRUE
Eval(k) == /\ k \notin seen /\ seen' = seen \cup {k}
           /\ flag' = (flag /\ st[k] \in {"absent", "ok"})
           /\ UNCHANGED st
Next == \E k \in Kernels : Eval(k)
Spec == Init /\ [][Next]_<<st, seen, flag>>
Missed == {<<k, p>> \in Kernels \X {"re", "im"} : st[k] \in {p, "both"}}
Right == seen = Kernels => (flag <=> Missed = {})
Export == seen = Kernels => PrintT("@C" \o ToJson([st |-> st, flag |-> flag]))
================================================================================
