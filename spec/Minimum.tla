------------------------------- MODULE Minimum -------------------------------
(***************************************************************************)
(* The process-wide minimum values.                                         *)
(*                                                                           *)
(* m holds the current minimum of every quantity as a level of an ordered    *)
(* grid of concrete numbers.  Set changes exactly the given ones, Get reads  *)
(* all of them, Compute runs a modelling routine with given levels; what it  *)
(* effectively uses is the maximum of value and minimum, and a warning is    *)
(* due if that replaced something and warnings are enabled.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS L,         \* levels 0..L
          N          \* length of the exported histories

Q == {"freq", "time", "off", "res", "angle"}
Levels == 0..L
Keep == -1           \* "not given" in a call of Set

VARIABLES m, log
vars == <<m, log>>

Max(a, b) == IF a > b THEN a ELSE b
Clip(q, v) == Max(v, m[q])

Init == m = [q \in Q |-> 0] /\ log = <<>>

\* For the exhaustive check of single operations: any minima.
InitAny == m \in [Q -> Levels] /\ log = <<>>

Set == \E s \in [Q -> {Keep} \cup Levels] :
         /\ m' = [q \in Q |-> IF s[q] = Keep THEN m[q] ELSE s[q]]
         /\ log' = Append(log, [op |-> "set", given |-> s])

Get == /\ log' = Append(log, [op |-> "get", want |-> m])
       /\ UNCHANGED m

(* A computation: routine, domain, levels of two frequencies (or times), two *)
(* offsets, horizontal and vertical resistivity of two layers.               *)
\* (wave: a waveform which is a step, and given times after it; the time since
\* the step is clipped as given times are, but silently.)
TimeQ(dom) == IF dom \in {"time", "wave"} THEN "time" ELSE "freq"
Domains(r) == IF r = "dipole" THEN {"freq", "lap", "time", "wave"}
              ELSE IF r = "bipole" THEN {"freq", "lap", "time", "wave"}
              ELSE IF r = "analytical" THEN {"freq", "lap", "time"}
              ELSE IF r = "loop" THEN {"freq", "time"} ELSE {"freq", "lap"}
Compute ==
  \E r \in {"dipole", "bipole", "loop", "analytical", "dipole_k"} :
  \E dom \in Domains(r) :
  \E ft, off, rh, rv \in [1..2 -> Levels] :
  \E verb \in {0, 1} :
    \* A vertical resistivity differing from the horizontal one is only given
    \* (through the anisotropy) where the horizontal one is not replaced.
    /\ \A i \in 1..2 : rh[i] < m["res"] => rv[i] = rh[i]
    /\ LET q    == TimeQ(dom)
           n    == IF r = "analytical" THEN 1 ELSE 2
           eff  == [ft  |-> [i \in 1..2 |-> Clip(q, ft[i])],
                    off |-> [i \in 1..2 |-> Clip("off", off[i])],
                    rh  |-> [i \in 1..n |-> Clip("res", rh[i])],
                    rv  |-> [i \in 1..n |-> Clip("res", rv[i])]]
           \* In time domain the required frequencies are far above every level.
           repl == \/ \E i \in 1..2 : (ft[i] < m[q] /\ dom # "wave") \/ off[i] < m["off"]
                   \/ \E i \in 1..n : rh[i] < m["res"] \/ rv[i] < m["res"]
       IN  log' = Append(log,
             [op |-> "compute", routine |-> r, dom |-> dom, verb |-> verb,
              given |-> [ft |-> ft, off |-> off,
                         rh |-> [i \in 1..n |-> rh[i]],
                         rv |-> [i \in 1..n |-> rv[i]]],
              eff |-> eff, warn |-> repl /\ verb > 0])
    /\ UNCHANGED m

Next == Len(log) < N /\ (Set \/ Get \/ Compute)
Spec == InitAny /\ [][Next]_vars

(* For the simulation: a balanced choice of the operations (Compute has by   *)
(* far the most instances, Set and Get would hardly be chosen).              *)
\* (Depends on the state, as TLC evaluates constant expressions only once.)
Rnd(S) == {RandomElement(IF Len(log) >= 0 THEN S ELSE {})}
RandomSet ==
  \E s \in Rnd([Q -> {Keep, Keep - 1} \cup Levels]) :
      LET g == [q \in Q |-> IF s[q] < 0 THEN Keep ELSE s[q]] IN
      /\ m' = [q \in Q |-> IF g[q] = Keep THEN m[q] ELSE g[q]]
      /\ log' = Append(log, [op |-> "set", given |-> g])
RandomCompute ==
  \E r \in Rnd({"dipole", "bipole", "loop", "analytical", "dipole_k"}) :
  \E dom \in Rnd(Domains(r)), verb \in Rnd({0, 1, 2}) :
  \E ft \in Rnd([1..2 -> Levels]), off \in Rnd([1..2 -> Levels]),
     rh \in Rnd([1..2 -> Levels]), rv0 \in Rnd([1..2 -> Levels]) :
  LET rv   == [i \in 1..2 |-> IF rh[i] < m["res"] THEN rh[i] ELSE rv0[i]]
      q    == TimeQ(dom)
      n    == IF r = "analytical" THEN 1 ELSE 2
      repl == \/ \E i \in 1..2 : (ft[i] < m[q] /\ dom # "wave") \/ off[i] < m["off"]
              \/ \E i \in 1..n : rh[i] < m["res"] \/ rv[i] < m["res"]
  IN  /\ log' = Append(log,
           [op |-> "compute", routine |-> r, dom |-> dom, verb |-> verb,
            given |-> [ft |-> ft, off |-> off,
                       rh |-> [i \in 1..n |-> rh[i]],
                       rv |-> [i \in 1..n |-> rv[i]]],
            eff |-> [ft  |-> [i \in 1..2 |-> Clip(q, ft[i])],
                     off |-> [i \in 1..2 |-> Clip("off", off[i])],
                     rh  |-> [i \in 1..n |-> Clip("res", rh[i])],
                     rv  |-> [i \in 1..n |-> Clip("res", rv[i])]],
            warn |-> repl /\ verb > 0])
      /\ UNCHANGED m
RandomNext == Len(log) < N /\ (RandomSet \/ Get \/ RandomCompute \/ RandomCompute)
RandomSpec == Init /\ [][RandomNext]_vars

(* --- properties --------------------------------------------------------------- *)
Last == log'[Len(log')]
OnlyGiven == [][\A q \in Q : (m'[q] # m[q]) =>
                  Last.op = "set" /\ Last.given[q] = m'[q]]_vars
Grew(a) == \A i \in 1..Len(a.given.ft) : a.eff.ft[i] >= a.given.ft[i]
NeverLowered ==
  \A k \in 1..Len(log) : log[k].op = "compute" => Grew(log[k])
WarnIffReplaced ==
  \A k \in 1..Len(log) : log[k].op = "compute" =>
     (log[k].warn <=>
        (log[k].verb > 0
                        /\ \/ (log[k].eff.ft # log[k].given.ft /\ log[k].dom # "wave")
                           \/ log[k].eff.off # log[k].given.off
                           \/ log[k].eff.rh # log[k].given.rh
                           \/ log[k].eff.rv # log[k].given.rv))
\* Reading gives what was last set (or the initial value).
LastSet(q, k) ==
  LET S == {i \in 1..k : log[i].op = "set" /\ log[i].given[q] # Keep}
  IN  IF S = {} THEN 0 ELSE log[CHOOSE i \in S : \A j \in S : j <= i].given[q]
ReadsLastSet ==
  \A k \in 1..Len(log) : log[k].op = "get" =>
     \A q \in Q : log[k].want[q] = LastSet(q, k)

Export == Len(log) = N => PrintT("@C" \o ToJson(log))
=============================================================================
