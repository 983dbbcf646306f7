---------------------------------- MODULE Args ---------------------------------
(***************************************************************************)
(* How the options of a transform are taken from what the user gives.        *)
(*                                                                           *)
(* given   what the user gives: option -> class of value                     *)
(*           "-"     not given                                               *)
(*           "user"  an admissible value                                     *)
(*           "low"   below the smallest admissible value                     *)
(*           "name", "inst"  a filter by name or as instance                 *)
(*           "sin", "cos"    the kind of the Fourier filter                  *)
(*           "neg", "pos"    lagged or splined DLF                           *)
(*           "small", "odd"  padded length smaller than / not a power of two *)
(*           "big"   an exponent outside [-1, 1]                             *)
(*           "bad"   not a value of that option: an error                    *)
(* extra   number of options unknown to the method                           *)
(* A step takes the next option of the method into the effective settings.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES meth, sig, given, extra, shout, verb, k, eff, err
vars == <<meth, sig, given, extra, shout, verb, k, eff, err>>

O(n, d, c) == [n |-> n, def |-> d, cls |-> c]
\* Options, documented defaults, classes of values which are enumerated.
Opts(m) ==
  CASE m = "h-dlf"  -> << O("dlf", "key_201_2009", {"-", "name", "inst", "bad"}),
                          O("pts_per_dec", "0.0", {"-", "neg", "pos", "bad"}) >>
    [] m = "h-qwe"  -> << O("rtol", "1e-12", {"-", "user"}), O("atol", "1e-30", {"-", "user"}),
                          O("nquad", "51", {"-", "user"}), O("maxint", "100", {"-", "user"}),
                          O("pts_per_dec", "0", {"-", "user", "low"}),
                          O("diff_quad", "100.0", {"-", "user"}), O("a", "None", {"-", "user"}),
                          O("b", "None", {"-", "user"}), O("limit", "None", {"-", "user", "bad"}) >>
    [] m = "h-quad" -> << O("rtol", "1e-12", {"-", "user", "bad"}), O("atol", "1e-20", {"-", "user"}),
                          O("limit", "500", {"-", "user"}), O("a", "1e-6", {"-", "user"}),
                          O("b", "0.1", {"-", "user"}), O("pts_per_dec", "40", {"-", "user", "low"}) >>
    [] m = "f-dlf"  -> << O("pts_per_dec", "-1.0", {"-", "neg", "pos", "bad"}),
                          O("kind", "sin", {"-", "sin", "cos", "bad"}),
                          O("dlf", "key_201_2012", {"-", "name", "inst", "bad"}) >>
    [] m = "f-qwe"  -> << O("rtol", "1e-8", {"-", "user"}), O("atol", "1e-20", {"-", "user"}),
                          O("nquad", "21", {"-", "user"}), O("maxint", "200", {"-", "user"}),
                          O("pts_per_dec", "20", {"-", "user", "low"}),
                          O("diff_quad", "100", {"-", "user"}), O("a", "None", {"-", "user"}),
                          O("b", "None", {"-", "user"}), O("limit", "None", {"-", "user"}) >>
    [] m = "f-fftlog" -> << O("pts_per_dec", "10", {"-", "user", "low"}),
                          O("add_dec", "[-2, 1]", {"-", "user", "bad"}),
                          O("q", "0", {"-", "user", "big"}) >>
    [] OTHER        -> << O("dfreq", "0.002", {"-", "user"}), O("nfreq", "2048", {"-", "user"}),
                          O("ntot", "pow2", {"-", "user", "small", "odd"}),
                          O("pts_per_dec", "None", {"-", "user", "low"}) >>
HMeths == {"h-dlf", "h-qwe", "h-quad"}
FMeths == {"f-dlf", "f-qwe", "f-fftlog", "f-fft"}

\* The set of functions with g[i] in the classes of option i (enumerable).
RECURSIVE Prod(_, _)
Prod(o, i) == IF i = 0 THEN {<<>>}
              ELSE {Append(g, c) : g \in Prod(o, i-1), c \in o[i].cls}

Init == /\ meth \in HMeths \cup FMeths
        /\ sig \in IF meth \in HMeths THEN {0} ELSE {0, 1, 2}      \* 2: switch-off
        /\ given \in Prod(Opts(meth), Len(Opts(meth)))
        /\ extra \in {0, 1, 2} /\ shout \in BOOLEAN /\ verb \in {0, 1}
        \* A part of the product only.
        /\ (extra + sig + Cardinality({i \in DOMAIN given : given[i] # "-"})
             + (IF shout THEN 1 ELSE 0) + verb) % 3 = 0
        /\ k = 0 /\ eff = <<>> /\ err = FALSE

Effective(i) ==
  LET c == given[i]  n == Opts(meth)[i].n IN
  CASE n = "kind" /\ sig = 1 -> "sin"
    [] n = "kind" /\ sig = 2 -> "cos"
    [] n = "ntot" /\ c \in {"-", "small"} -> "pow2"
    [] c = "-"   -> "default"
    [] c = "low" -> "min"
    [] c = "big" -> "unit"
    [] OTHER     -> c
\* A kind which is overruled by the signal is never looked at.
Fails(i) == Effective(i) = "bad"
Take == /\ k < Len(given) /\ ~err
        /\ k' = k + 1
        /\ IF Fails(k+1) THEN err' = TRUE /\ UNCHANGED eff
           ELSE eff' = Append(eff, Effective(k+1)) /\ UNCHANGED err
        /\ UNCHANGED <<meth, sig, given, extra, shout, verb>>
Next == Take
Spec == Init /\ [][Next]_vars
Done == k = Len(given) \/ err

\* ------------------------------------------------------------- properties
\* Given admissible values are honoured, missing ones are the defaults.
Honoured == \A i \in DOMAIN eff :
  /\ given[i] \in {"user", "name", "inst", "neg", "pos", "odd"} => eff[i] = given[i]
  /\ given[i] = "-" /\ Opts(meth)[i].n \notin {"kind", "ntot"} => eff[i] = "default"
\* What is unknown, how names are written, or how much is printed has no effect.
Independent == Done => LET again == [i \in DOMAIN given |-> Effective(i)] IN
  ~err => eff = again
\* A method reads its own options only.
Closed == Len(eff) <= Len(Opts(meth))
Warn == verb > 0 /\ (extra > 0 \/ \E i \in DOMAIN given : given[i] = "low")

Export == Done => PrintT("@C" \o ToJson(
  [m |-> meth, sig |-> sig, given |-> given, extra |-> extra, shout |-> shout,
   verb |-> verb, eff |-> eff, err |-> err, warn |-> Warn,
   names |-> [i \in DOMAIN given |-> Opts(meth)[i].n],
   defs |-> [i \in DOMAIN given |-> Opts(meth)[i].def]]))
================================================================================
