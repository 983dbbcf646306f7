------------------------------ MODULE Helpers -------------------------------
(***************************************************************************)
(* The two helper routines, as programs of primitive field requests.         *)
(*                                                                           *)
(* ip_and_q:  check -> secondary -> primary -> ratio -> parts                *)
(* gpr:       times -> field -> wavelet -> transform -> gain -> real         *)
(*                                                                           *)
(* A field request is [ab, layers, direct]: which component, of which layers *)
(* ("all" of them, or a full-space of the "first"), and whether the direct   *)
(* field is part ("no") or all there is ("only") or included ("yes").        *)
(* The reported quantity is given by the requests, and a list of the         *)
(* operations applied, each exactly once, in this order.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rout, Params, Gains

VARIABLES req, pc, ask, ops, out
vars == <<req, pc, ask, ops, out>>

Dirs == 1..6
ABs == {10*i + j : i \in Dirs, j \in Dirs}
Magnetic(ab) == ab \div 10 > 3 /\ ab % 10 > 3
SrcDir(ab) == ab % 10

Opt == {"aniso", "epermH", "epermV", "mpermH", "mpermV"} \cap Params

\* The request is put together in two steps (keeps the successor sets small).
Init == req = [r |-> "none"] /\ pc = "start" /\ ask = <<>> /\ ops = <<>> /\ out = "none"

ChooseI == /\ pc = "start" /\ "ipq" \in Rout
           /\ \E ab \in ABs \cup {0}, s \in {"none", "zero", "on", "off"}, st \in BOOLEAN,
                n \in 1..3 :
                /\ s # "none" => ab \in {0, 11, 44, 56}
                /\ req' = [r |-> "ipq", ab |-> ab, signal |-> s, str |-> st, n |-> n]
           /\ pc' = "more" /\ UNCHANGED <<ask, ops, out>>
MoreI == /\ pc = "more" /\ req.r = "ipq"
         /\ \E sc \in {"def", "oth"}, d \in {"f", "s"}, fo \in [Opt -> {"none", "list"}],
              nr \in 1..2, ns \in 1..2, nf \in 1..2 :
              req' = [r |-> "ipq", ab |-> req.ab, signal |-> req.signal, str |-> req.str,
                      n |-> req.n, scale |-> sc, dom |-> d, forms |-> fo, nrec |-> nr,
                      nsrc |-> ns, nf |-> nf]
         /\ pc' = "check" /\ UNCHANGED <<ask, ops, out>>

CheckI == /\ pc = "check" /\ req.r = "ipq"
          /\ IF ~Magnetic(req.ab) \/ req.signal # "none"
             THEN out' = "refused" /\ pc' = "done"
             ELSE out' = out /\ pc' = "secondary"
          /\ UNCHANGED <<req, ask, ops>>
Secondary == /\ pc = "secondary"
             /\ ask' = Append(ask, [ab |-> req.ab, layers |-> "all", direct |-> "no"])
             /\ pc' = "primary" /\ UNCHANGED <<req, ops, out>>
Primary == /\ pc = "primary"
           /\ ask' = Append(ask, [ab |-> 11*SrcDir(req.ab), layers |-> "first",
                                  direct |-> "only"])
           /\ pc' = "ratio" /\ UNCHANGED <<req, ops, out>>
Ratio == /\ pc = "ratio" /\ ops' = <<"divide", "scale", "parts">> /\ out' = "value"
         /\ pc' = "done" /\ UNCHANGED <<req, ask>>

ChooseG == /\ pc = "start" /\ "gpr" \in Rout
           /\ \E ab \in ABs, g \in Gains, f \in {"def", "fft", "dlf"}, n \in 1..3 :
                req' = [r |-> "gpr", ab |-> ab, gain |-> g, ft |-> f, n |-> n]
           /\ pc' = "more" /\ UNCHANGED <<ask, ops, out>>
MoreG == /\ pc = "more" /\ req.r = "gpr"
         /\ \E nr \in 1..2, ns \in 1..2, nt \in 1..2, x \in {"def", "yes", "none"},
              sp \in BOOLEAN, fo \in [Opt -> {"none", "list"}] :
              req' = [r |-> "gpr", ab |-> req.ab, gain |-> req.gain, ft |-> req.ft,
                      n |-> req.n, nrec |-> nr, nsrc |-> ns, nt |-> nt, xdirect |-> x,
                      sparse |-> sp, forms |-> fo]
         /\ pc' = "check" /\ UNCHANGED <<ask, ops, out>>
\* (That GPR responses need the fast Fourier transform is documented as a
\* recommendation; other methods have no obligation.)
CheckG == /\ pc = "check" /\ req.r = "gpr" /\ req.ft # "dlf"
          /\ pc' = "field" /\ UNCHANGED <<req, ask, ops, out>>
Field == /\ pc = "field"
         /\ ask' = Append(ask, [ab |-> req.ab, layers |-> "all",
                                direct |-> IF req.xdirect = "none" THEN "no" ELSE "yes"])
         /\ pc' = "wavelet" /\ UNCHANGED <<req, ops, out>>
Wavelet == /\ pc = "wavelet" /\ ops' = Append(ops, "wavelet") /\ pc' = "transform"
           /\ UNCHANGED <<req, ask, out>>
Transform == /\ pc = "transform" /\ ops' = Append(ops, "transform") /\ pc' = "gain"
             /\ UNCHANGED <<req, ask, out>>
Gain == /\ pc = "gain"
        /\ ops' = IF req.gain = "none" THEN ops ELSE Append(ops, "gain")
        /\ out' = "value" /\ pc' = "done" /\ UNCHANGED <<req, ask>>

Next == \/ ChooseI \/ MoreI \/ CheckI \/ Secondary \/ Primary \/ Ratio
        \/ ChooseG \/ MoreG \/ CheckG \/ Field \/ Wavelet \/ Transform \/ Gain
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Once(x) == Cardinality({i \in 1..Len(ops) : ops[i] = x}) <= 1
Sound ==
  pc = "done" =>
    /\ out = "refused" <=> (req.r = "ipq" /\ (~Magnetic(req.ab) \/ req.signal # "none"))
    /\ (out = "value" /\ req.r = "ipq") =>
          \* the primary is co-planar, and of the direction of the source
          /\ ask[2].ab \div 10 = ask[2].ab % 10 /\ ask[2].ab % 10 = req.ab % 10
          /\ ask[2].layers = "first" /\ ask[1].direct = "no" /\ ask[2].direct = "only"
    /\ (out = "value" /\ req.r = "gpr") =>
          /\ \A x \in {"wavelet", "transform", "gain"} : Once(x)
          /\ ("gain" \in {ops[i] : i \in 1..Len(ops)}) = (req.gain # "none")
          /\ ops[1] = "wavelet" /\ ops[2] = "transform"

Shown == pc = "done"
Export == Shown => PrintT("@C" \o ToJson([req |-> req, ask |-> ask, ops |-> ops, out |-> out]))
=============================================================================
