-------------------------------- MODULE Effects --------------------------------
(***************************************************************************)
(* Every option of a transform has an effect of its own, and no memory.      *)
(*                                                                           *)
(* Each ladder is an option of a method, a context (other options, so that   *)
(* the option is decisive), and values (rungs) of which no two give the same *)
(* field.  A session moves along a ladder, computing at every stop; the      *)
(* value at a stop is a function of the rung only (same rung: same field;    *)
(* another rung: another field).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

L(m, o, c, r) == [m |-> m, o |-> o, ctx |-> c, rungs |-> r]
Quad == "'diff_quad': 0, "
HQ   == Quad \o "'pts_per_dec': 20, "
Ladders == {
  L("h-qwe", "limit", HQ, <<"1", "2", "4", "100">>),
  L("h-qwe", "limit", HQ \o "'maxint': 5, ", <<"1", "2", "4">>),
  L("h-qwe", "a", HQ \o "'limit': 20, ", <<"1e-4", "1e-3", "1e-2">>),
  L("h-qwe", "b", HQ \o "'limit': 20, 'maxint': 5, ", <<".01", ".05", ".1", ".3", "1.">>),
  L("h-qwe", "diff_quad", "'pts_per_dec': 20, 'limit': 2, ", <<"0", "1000">>),
  L("h-qwe", "rtol", "", <<"1e-3", "1e-12">>),
  L("h-qwe", "rtol", HQ \o "'limit': 20, ", <<"1e-12", ".1">>),
  L("h-qwe", "atol", "'rtol': 0, ", <<"1e-30", "1e-10", "1e-5">>),
  L("h-qwe", "atol", HQ \o "'limit': 20, ", <<"1e-30", "1">>),
  L("h-qwe", "nquad", "", <<"7", "15", "51">>),
  L("h-qwe", "maxint", "", <<"3", "6", "100">>),
  L("h-qwe", "pts_per_dec", "", <<"0", "5", "20">>),
  L("h-quad", "rtol", "", <<"1e-12", "1e-1">>),
  L("h-quad", "atol", "'rtol': 0, ", <<"1e-20", "1">>),
  L("h-quad", "limit", "", <<"1", "5", "500">>),
  L("h-quad", "a", "", <<"1e-6", "1e-4", "1e-2">>),
  L("h-quad", "b", "", <<".01", ".1", "1.">>),
  L("h-quad", "pts_per_dec", "", <<"1", "10", "40">>),
  L("h-dlf", "pts_per_dec", "", <<"0", "5", "-1">>),
  L("h-dlf", "dlf", "", <<"'key_101_2009'", "'key_201_2009'", "'kong_61_2007b'">>),
  L("f-qwe", "limit", Quad, <<"1", "3", "10", "None">>),
  L("f-qwe", "limit", Quad \o "'maxint': 5, ", <<"1", "3">>),
  L("f-qwe", "a", Quad \o "'limit': 20, ", <<"1e-2", ".1", ".5">>),
  L("f-qwe", "b", Quad \o "'limit': 20, 'maxint': 5, ", <<"5.", "40.", "300.", "3000.">>),
  L("f-qwe", "diff_quad", "", <<"0", "1000">>),
  L("f-qwe", "rtol", "", <<"1e-3", "1e-8">>),
  L("f-qwe", "atol", "'rtol': 0, ", <<"1e-30", "1e-10", "1e-3">>),
  L("f-qwe", "nquad", "", <<"7", "15">>),
  L("f-qwe", "maxint", "", <<"3", "6", "100">>),
  L("f-qwe", "pts_per_dec", "", <<"5", "10", "20">>),
  L("f-fftlog", "q", "", <<"-1", "-.5", "0", ".5", "1">>),
  L("f-fftlog", "pts_per_dec", "", <<"1", "5", "10", "20">>),
  L("f-fftlog", "add_dec", "", <<"[-1, 1]", "[-2, 1]", "[-2, 2]", "[-3, 3]">>),
  L("f-fft", "dfreq", "", <<".001", ".002", ".03">>),
  L("f-fft", "nfreq", "", <<"128", "500", "2048">>),
  L("f-fft", "ntot", "'nfreq': 128, ", <<"128", "256", "4096">>),
  L("f-fft", "pts_per_dec", "", <<"None", "3", "8">>),
  L("f-dlf", "pts_per_dec", "", <<"0", "5", "-1">>),
  L("f-dlf", "dlf", "", <<"'key_81_2009'", "'key_101_2012'", "'key_241_2009'">>) }

CONSTANT Stops
VARIABLES lad, path
Init == lad \in Ladders /\ path = <<>>
Visit == Len(path) < Stops
         /\ \E r \in DOMAIN lad.rungs :
              /\ IF path = <<>> THEN TRUE ELSE path[Len(path)] # r
              /\ path' = Append(path, r)
         /\ UNCHANGED lad
Spec == Init /\ [][Visit]_<<lad, path>>

\* Which stops have to agree: an equivalence, with one class per rung visited.
Agree == { <<i, j>> \in (DOMAIN path) \X (DOMAIN path) : path[i] = path[j] }
Equivalence == /\ \A i \in DOMAIN path : <<i, i>> \in Agree
               /\ \A i, j, k \in DOMAIN path :
                    (<<i, j>> \in Agree /\ <<j, k>> \in Agree) => <<i, k>> \in Agree
               /\ Cardinality({path[i] : i \in DOMAIN path}) <= Len(lad.rungs)
Distinct == \A i, j \in DOMAIN lad.rungs : lad.rungs[i] = lad.rungs[j] => i = j
Export == Len(path) = Stops => PrintT("@C" \o ToJson(
  [m |-> lad.m, o |-> lad.o, ctx |-> lad.ctx,
   path |-> [i \in DOMAIN path |-> [r |-> path[i], v |-> lad.rungs[path[i]]]]]))
================================================================================
