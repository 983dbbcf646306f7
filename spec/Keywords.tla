------------------------------ MODULE Keywords ------------------------------
(***************************************************************************)
(* Keyword arguments of the modelling routines.                              *)
(*                                                                           *)
(* A request is put together keyword by keyword (each with its default or    *)
(* another value) and then made.  Keywords no routine knows are refused,     *)
(* whatever else is given; keywords only other routines know are named in a  *)
(* warning and have no influence; the result is the one of the routine's own *)
(* keywords which differ from their defaults.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxKeys, Foreigns

VARIABLES r,       \* routine
          e,       \* experiment: "f" or "t"
          given,   \* sequence of [k, v]
          out      \* outcome, once made
vars == <<r, e, given, out>>

Routines == {"bipole", "dipole", "loop", "analytical", "gpr", "dipole_k", "ip_and_q"}
Medium == {"aniso", "epermH", "epermV", "mpermH", "mpermV"}
Exec == {"ht", "htarg", "ft", "ftarg", "xdirect", "loop"}
\* Keywords which one of the routines knows, except those all know.
Known == {"depth", "signal", "ab", "freqtime", "freq", "wavenumber", "solution", "cf",
          "gain", "msrc", "srcpts", "mrec", "recpts", "strength", "squeeze", "bandpass"}
         \cup Exec
\* (Arguments without default are always given.)
Needed(x) ==
  CASE x = "analytical" -> {"freqtime"}
    [] x = "gpr" -> {"depth", "freqtime", "cf"}
    [] x = "dipole_k" -> {"depth", "freq", "wavenumber"}
    [] OTHER -> {"depth", "freqtime"}
Opt(x) ==
  CASE x = "bipole" -> {"signal", "msrc", "srcpts", "mrec", "recpts", "strength",
                        "squeeze", "bandpass"} \cup Exec \cup Medium
    [] x = "dipole" -> {"signal", "ab", "squeeze", "bandpass"} \cup Exec \cup Medium
    [] x = "loop" -> {"signal", "mrec", "recpts", "strength", "squeeze", "bandpass"}
                     \cup Exec \cup Medium
    [] x = "analytical" -> {"solution", "signal", "ab", "squeeze"} \cup Medium
    [] x = "gpr" -> {"gain", "ab"} \cup Exec \cup Medium
    [] x = "dipole_k" -> {"ab"} \cup Medium
    [] OTHER -> {"scale", "signal", "ab", "squeeze", "bandpass", "ft", "ftarg", "xdirect", "ht",
                 "htarg", "loop"} \cup Medium
\* Documented to be overruled, without a warning.
Overruled(x) == CASE x = "loop" -> {"msrc", "srcpts"} [] x = "ip_and_q" -> {"xdirect"}
                  [] OTHER -> {}
Foreign(x) == Known \ (Needed(x) \cup Opt(x) \cup Overruled(x))
Unknown == {"Ht", "freqtimes", "verbose", "names", "defaults", "kwargs", "xDirect", "sig",
            "off", "method", "eperm", "mperm", "times", "src_pts"}

\* Experiments exist in the frequency and in the time domain.
Exps(x) == CASE x \in {"dipole_k", "ip_and_q"} -> {"f"} [] x = "gpr" -> {"t"}
             [] OTHER -> {"f", "t"}
\* Time-domain experiments fix the Hankel method (and GPR the Fourier method).
Free(x, y) == Opt(x) \ (CASE y = "f" -> {"signal"}
                          [] x = "gpr" -> {"ht", "ft"}
                          [] x = "analytical" -> {"solution"} \cup (Medium \ {"aniso"})
                          [] OTHER -> {"ht"})
\* Options which change how, but not what is computed, or are for other
\* domains or methods.
Dead(x, y, S) == {"loop"} \cup Overruled(x)
   \cup (IF y = "f" THEN {"ft", "ftarg"} ELSE {})
   \cup (IF x = "ip_and_q" THEN {"bandpass"} ELSE {})
   \cup (IF "ht" \in S THEN {"htarg"} ELSE {})
   \cup (IF "ft" \in S THEN {"ftarg"} ELSE {})

Keys == {given[i].k : i \in 1..Len(given)}
Init == r = "" /\ e = "" /\ given = <<>> /\ out = [k |-> "none"]
Choose == /\ r = "" /\ \E x \in Routines : \E y \in Exps(x) : r' = x /\ e' = y
          /\ UNCHANGED <<given, out>>
Ready == r # "" /\ out.k = "none" /\ Len(given) < MaxKeys
Give(S, V) == /\ Ready
              /\ \E k \in S \ Keys, v \in V :
                   given' = Append(given, [k |-> k, v |-> v])
              /\ UNCHANGED <<r, e, out>>
GiveOwn == Give(Free(r, e), {"def", "oth"})
GiveForeign == /\ Cardinality(Keys \cap Foreign(r)) < Foreigns
               /\ Give(Foreign(r), {"any"})
GiveOverruled == Give(Overruled(r), {"any"})
GiveUnknown == /\ Keys \cap Unknown = {} /\ Give(Unknown, {"any"})
Others == {given[i].k : i \in {j \in 1..Len(given) : given[j].v = "oth"}}
Make == /\ r # "" /\ out.k = "none"
        /\ out' = IF Keys \cap Unknown # {} THEN [k |-> "refused"]
                  ELSE [k |-> "result", warn |-> Keys \cap Foreign(r),
                        eff |-> Others \ Dead(r, e, Others)]
        /\ UNCHANGED <<r, e, given>>
Next == Choose \/ GiveOwn \/ GiveForeign \/ GiveOverruled \/ GiveUnknown \/ Make
Spec == Init /\ [][Next]_vars

\* Every keyword has one role only; nothing else has an influence.
Roles == \A x \in Routines :
   /\ Opt(x) \cap Needed(x) = {} /\ Foreign(x) \cap Opt(x) = {}
   /\ Unknown \cap (Known \cup Opt(x)) = {}
   /\ Known \subseteq Foreign(x) \cup Needed(x) \cup Opt(x) \cup Overruled(x)
Sound == out.k = "result" =>
   /\ out.eff \subseteq Opt(r) \ Foreign(r)
   /\ out.warn \cap (Opt(r) \cup Needed(r)) = {}
   /\ Keys \cap Unknown = {}
Export == out.k # "none" => PrintT("@C" \o ToJson([r |-> r, e |-> e, given |-> given, out |-> out]))
=============================================================================
