------------------------------ MODULE LowLevel ------------------------------
(***************************************************************************)
(* The public routine, taken apart: the checks bring the input into the      *)
(* format the core routines `fem' and `tem' need; each check needs what      *)
(* other checks provide.  Any order of the checks which respects that gives  *)
(* the same input, and the core routines give, for all or for a part of the  *)
(* frequencies, offsets, and times, the corresponding part of what the       *)
(* public routine returns; once, or again and again.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, MaxCalls, Free

VARIABLES req, have, done, calls, out
vars == <<req, have, done, calls, out>>

Steps == {"time", "model", "freq", "hankel", "loop", "ab", "src", "rec", "off",
          "lsrc", "lrec"}
Needs(s) == CASE s = "freq" -> {"freqs", "layers"}
              [] s = "loop" -> {"ht"}
              [] s = "off" -> {"srcs", "recs"}
              [] s = "lsrc" -> {"srcs", "layers"}
              [] s = "lrec" -> {"recs", "layers"}
              [] OTHER -> {}
Provides(s) == CASE s = "time" -> {"freqs", "times", "ft"}
                 [] s = "model" -> {"layers", "isfullspace"}
                 [] s = "freq" -> {"eta", "zeta"}
                 [] s = "hankel" -> {"ht"}
                 [] s = "loop" -> {"loops"}
                 [] s = "ab" -> {"ab", "magnetic"}
                 [] s = "src" -> {"srcs"}
                 [] s = "rec" -> {"recs"}
                 [] s = "off" -> {"offsets"}
                 [] s = "lsrc" -> {"layer of src"}
                 [] s = "lrec" -> {"layer of rec"}
FemNeeds == UNION {Provides(s) : s \in Steps} \ {"times", "ft"}

\* In the wavenumber domain: shapes.  Wavenumbers are one-dimensional for any
\* number of offsets, or of any shape for a single one.
Shape(nf, no, w) == IF Len(w) = 2 /\ no = 1 THEN <<nf, w[1], w[2]>>
                    ELSE <<nf, no, w[Len(w)]>>
Squeeze(s) == SelectSeq(s, LAMBDA x : x # 1)

Init == /\ req = [k |-> ""] /\ have = {} /\ done = <<>> /\ calls = <<>> /\ out = "none"

Choose == /\ req.k = ""
          /\ \E k \in Kinds :
               IF k = "core"
               THEN \E s \in {"none", "off", "impulse", "on"}, n \in 1..3, nr \in 1..2, ns \in 1..2,
                      l \in {"none", "off", "freq"}, x \in {"yes", "no", "none"} :
                      req' = [k |-> k, signal |-> s, n |-> n, nrec |-> nr, nsrc |-> ns,
                              loop |-> l, x |-> x]
               ELSE \E ab \in {10*i + j : i \in 1..6, j \in 1..6}, n \in 1..3, nf \in 1..3,
                      no \in 1..3, w \in {<<4>>, <<1>>, <<2, 3>>, <<1, 4>>, <<3, 1>>} :
                      /\ Len(w) = 2 => no = 1
                      /\ req' = [k |-> k, ab |-> ab, n |-> n, nf |-> nf, no |-> no, w |-> w,
                                 shape |-> Squeeze(Shape(nf, no, w))]
          /\ UNCHANGED <<have, done, calls, out>>

\* Without freedom, the smallest of the possible steps is made.
Rank(s) == CHOOSE i \in 1..11 :
             s = <<"time", "model", "freq", "hankel", "loop", "ab", "src", "rec", "off",
                   "lsrc", "lrec">>[i]
Ready(s) == s \notin {done[i] : i \in 1..Len(done)} /\ Needs(s) \subseteq have
Check == /\ req.k = "core" /\ calls = <<>>
         /\ \E s \in Steps :
              /\ Ready(s)
              /\ Free \/ \A z \in Steps : Ready(z) => Rank(s) <= Rank(z)
              /\ done' = Append(done, s) /\ have' = have \cup Provides(s)
         /\ UNCHANGED <<req, calls, out>>

Fem == /\ req.k = "core" /\ FemNeeds \subseteq have /\ Len(calls) < MaxCalls
       /\ \E fs \in {"all", "first", "last"}, os \in {"all", "first", "last"}, c \in BOOLEAN :
            /\ Free \/ c
            /\ calls' = Append(calls, [c |-> "fem", freqs |-> fs, offs |-> os, conv |-> c,
                                       gives |-> "part"])
       /\ UNCHANGED <<req, have, done, out>>
\* (Transforms need all frequencies.)
Tem == /\ req.k = "core" /\ req.signal # "none" /\ Len(calls) < MaxCalls
       /\ \E i \in 1..Len(calls) : calls[i].c = "fem" /\ calls[i].freqs = "all" /\
                                   calls[i].offs = "all"
       /\ \E os \in {"all", "first", "last"}, c \in BOOLEAN :
            /\ Free \/ c
            /\ calls' = Append(calls, [c |-> "tem", freqs |-> "all", offs |-> os, conv |-> c,
                                       gives |-> "part"])
       /\ UNCHANGED <<req, have, done, out>>
Stop == /\ out = "none"
        /\ \/ req.k = "wavenumber"
           \/ req.k = "core" /\ Len(calls) = MaxCalls
        /\ out' = "done" /\ UNCHANGED <<req, have, done, calls>>

Next == Choose \/ Check \/ Fem \/ Tem \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every check is needed, and made once.
Needed == Len(calls) > 0 => Cardinality({done[i] : i \in 1..Len(done)}) = Len(done)
                            /\ \A s \in Steps : \E i \in 1..Len(done) : done[i] = s
\* What a check needs is there before.
Ordered == \A i \in 1..Len(done) :
             \A y \in Needs(done[i]) : \E j \in 1..(i-1) : y \in Provides(done[j])
Shapes == req.k = "wavenumber" =>
            \A i \in 1..Len(req.shape) : req.shape[i] # 1
Export == out = "done" => PrintT("@C" \o ToJson([req |-> req, done |-> done, calls |-> calls]))
=============================================================================
