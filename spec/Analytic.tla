------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* Analytical solutions as sums of five atoms: the TE and TM parts of the    *)
(* direct and of the reflected field, and the air-wave.                      *)
(*                                                                           *)
(* A history is a sequence of requests at one experiment (component, signal, *)
(* domain, medium, geometry); each is refused, or answered with a tuple of   *)
(* sets of atoms.  What an atom is does not depend on the request: whatever  *)
(* the order, every answer is the sum over the same atoms.  The anchors tie  *)
(* sums of atoms to computations without any analytical solution; and, as    *)
(* diffusion has no scale, the answers are the same in any system of units.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxReq, Free

VARIABLES ex,     \* experiment
          hist    \* requests made, with their answers
vars == <<ex, hist>>

Dirs == 1..6
ABs == {10*i + j : i \in Dirs, j \in Dirs}
Electric(ab) == ab \div 10 < 4 /\ ab % 10 < 4
Valid == {"fs", "dfs", "dhs", "dsplit", "dtetm"}
Wrong == {"hs", "d", "dtmte", "DHS", ""}
Signals == {"none", "off", "impulse", "on"}

Atoms == {"dTE", "dTM", "rTE", "rTM", "air"}
Direct == {"dTE", "dTM"}
Reflected == {"rTE", "rTM"}
\* Vertical components: only TM, no air-wave.
Absent(ab) == IF ab \div 10 = 3 \/ ab % 10 = 3 THEN {"dTE", "rTE", "air"} ELSE {}
\* Only the TM mode has vertical currents, hence sees the vertical resistivity.
SeesAnisotropy == {"dTM", "rTM"}

Refused(s, x) ==
  \/ s \notin Valid
  \/ s \in {"dfs", "dhs", "dsplit", "dtetm"} /\ ~Electric(x.ab)
  \/ s = "fs" /\ x.signal # "none"

Parts(s) ==
  CASE s = "dfs" -> <<Direct>>
    [] s = "dhs" -> <<Atoms>>
    [] s = "dsplit" -> <<Direct, Reflected, {"air"}>>
    [] s = "dtetm" -> << {"dTE"}, {"dTM"}, {"rTE"}, {"rTM"}, {"air"} >>
    [] s = "fs" -> << {"full"} >>

\* Medium parameters the solution depends on.
Sees(s) == IF s = "fs" THEN {"res", "aniso", "epermH", "epermV", "mpermH", "mpermV"}
           ELSE {"res", "aniso"}

\* Computations, which know nothing of analytical solutions, and what they
\* are the sum of.
Anchors(x) ==
  IF x.signal = "none"
  THEN { [a |-> "layers:fullspace", is |-> {"full"}] } \cup
       (IF ~Electric(x.ab) THEN {}
        ELSE { [a |-> "layers:diffusive fullspace", is |-> Direct],
               [a |-> "layers:diffusive halfspace", is |-> Atoms] })
  ELSE IF ~Electric(x.ab) THEN {}
  ELSE { [a |-> "transform of the Laplace domain", is |-> {y}] : y \in Atoms } \cup
       \* what a step response still lacks, or has, is the static field
       (IF x.signal = "impulse" THEN {}
        ELSE { [a |-> "static field", is |-> {y}] : y \in Atoms }) 

\* The diffusive field has no scale of its own: another unit of length and of
\* resistivity is another unit of time and of the field, exponents
\* <<length, resistivity, time>>.
Units == {"field", "lab", "crust"}
Dimension(sig) == [length |-> 0-3, res |-> 1, time |-> IF sig = "impulse" THEN 0-1 ELSE 0]

Media == {"iso", "more", "less"}      \* vertical over horizontal resistivity
Geo == {"below", "above", "level", "shallow"}

Init == ex = [ab |-> 0] /\ hist = <<>>
Choose1 == /\ ex.ab = 0
           /\ \E ab \in ABs, s \in Signals, d \in {"f", "s"} :
                /\ (s # "none" => d = "f")
                /\ ex' = [ab |-> ab, signal |-> s, dom |-> d, med |-> "none"]
           /\ UNCHANGED hist
Choose2 == /\ ex.ab # 0 /\ ex.med = "none"
           /\ IF Free
              THEN \E m \in Media, g \in Geo, a \in 1..2, b \in 1..2, c \in 1..3,
                     u \in Units :
                     ex' = [ab |-> ex.ab, signal |-> ex.signal, dom |-> ex.dom, med |-> m,
                            geo |-> g, nrec |-> a, nsrc |-> b, nft |-> c, unit |-> u]
              ELSE ex' = [ab |-> ex.ab, signal |-> ex.signal, dom |-> ex.dom, med |-> "more",
                          geo |-> "below", nrec |-> 2, nsrc |-> 1, nft |-> 2, unit |-> "field"]
           /\ UNCHANGED hist
Ask == /\ ex.ab # 0 /\ ex.med # "none" /\ Len(hist) < MaxReq
       /\ \E s \in Valid \cup (IF Free THEN Wrong ELSE {"hs"}) :
            /\ \A i \in 1..Len(hist) : hist[i].sol # s
            /\ hist' = Append(hist, IF Refused(s, ex)
                                    THEN [sol |-> s, out |-> "refused", parts |-> <<>>, sees |-> {}]
                                    ELSE [sol |-> s, out |-> "value", parts |-> Parts(s),
                                          sees |-> Sees(s)])
       /\ UNCHANGED ex
Next == Choose1 \/ Choose2 \/ Ask
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Rng(s) == {s[i] : i \in 1..Len(s)}
Sound ==
  \A i \in 1..Len(hist) : LET h == hist[i] IN
    h.out = "value" /\ h.sol # "fs" =>
      \* parts do not overlap, and the splits are complete
      /\ \A a \in 1..Len(h.parts) : \A b \in 1..Len(h.parts) :
           a # b => h.parts[a] \cap h.parts[b] = {}
      /\ h.sol \in {"dhs", "dsplit", "dtetm"} => UNION Rng(h.parts) = Atoms
      /\ Electric(ex.ab)
      \* the finer split refines the coarser one
      /\ \A j \in 1..Len(hist) :
           hist[j].out = "value" /\ h.sol = "dtetm" /\ hist[j].sol # "fs" =>
             \A p \in Rng(hist[j].parts) : p = UNION {q \in Rng(h.parts) : q \subseteq p}
\* Every solution which exists for a component is anchored.
Anchored ==
  ex.ab # 0 /\ ex.med # "none" =>
    \A s \in Valid : ~Refused(s, ex) =>
      \A p \in Rng(Parts(s)) :
        \/ \E a \in Anchors(ex) : a.is = p
        \/ \A q \in p : \E a \in Anchors(ex) : q \in a.is

Shown == Len(hist) = MaxReq
Export == Shown => PrintT("@C" \o ToJson([ex |-> ex, hist |-> hist, absent |-> Absent(ex.ab),
                                          anchors |-> Anchors(ex), dim |-> Dimension(ex.signal),
                                          blind |-> Atoms \ SeesAnisotropy]))
=============================================================================
