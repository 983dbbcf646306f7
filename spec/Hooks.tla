------------------------------- MODULE Hooks --------------------------------
(***************************************************************************)
(* User functions within a modelling call.                                   *)
(*                                                                           *)
(* The user gives layers in either order, with extra values per layer, and   *)
(* up to three functions.  The call brings layers into the order of the      *)
(* computation, computes the medium, lets the functions replace it, computes *)
(* the field, lets the filter function change it, and transforms it.  The    *)
(* medium is a sequence of symbolic terms, one per layer of the computation: *)
(*   [base |-> i, by |-> j]: computed from the user's layer i, and replaced  *)
(*   by a function of it and of the extra value of the user's layer j        *)
(*   (j = 0: not replaced).                                                  *)
(* `log` is what the functions see when they are called, in order.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLayers, Routines

VARIABLES req, pc, inp, eta, zeta, em, log
vars == <<req, pc, inp, eta, zeta, em, log>>

Layouts == {"down", "up", "down, bounded", "up, bounded"}
\* "same" returns what it got; "scale" uses the extra values; "inplace" is
\* "scale" on the very arrays it got; "none": there is no such function.
Funcs == {"none", "same", "scale", "inplace", "freq"}
Bands == {"none", "same", "scale", "first"}

Domains(r) == CASE r = "analytical fs" -> {"f", "s"}
                [] r = "gpr" -> {"t"}
                [] OTHER -> {"f", "s", "t"}
One(r) == r \in {"analytical fs", "analytical dhs"}

Init == /\ req = [r |-> ""] /\ pc = "start" /\ inp = <<>> /\ eta = <<>> /\ zeta = <<>>
        /\ em = [of |-> <<>>, band |-> 0, domain |-> ""] /\ log = <<>>

Choose == /\ pc = "start"
          /\ \E r \in Routines, n \in 1..MaxLayers, l \in Layouts :
               \E d \in Domains(r) :
               /\ One(r) => n = 1
               /\ n = 1 => l = "down"
               /\ n = 2 => l # "up"       \* (one interface has no direction)
               /\ req' = [r |-> r, n |-> n, lay |-> l, dom |-> d]
          /\ pc' = "functions" /\ UNCHANGED <<inp, eta, zeta, em, log>>
Functions == /\ pc = "functions"
             /\ \E fe \in Funcs, fz \in Funcs, b \in Bands, same \in BOOLEAN :
                  /\ req.r \in {"analytical fs", "analytical dhs", "gpr"} => b = "none"
                  /\ req.dom = "t" => fe # "freq" /\ fz # "freq"
                  /\ b = "first" => req.dom = "t"
                  /\ req' = [r |-> req.r, n |-> req.n, lay |-> req.lay, dom |-> req.dom,
                             eta |-> fe, zeta |-> fz, band |-> b, homogeneous |-> same,
                             \* A dictionary needs at least one function.
                             dict |-> fe # "none" \/ fz # "none"]
             /\ pc' = "order" /\ UNCHANGED <<inp, eta, zeta, em, log>>

\* The order of the computation is top to bottom.
Up == req.lay \in {"up", "up, bounded"}
Order == /\ pc = "order"
         /\ LET o == [k \in 1..req.n |-> IF Up THEN req.n + 1 - k ELSE k] IN
              /\ inp' = o          \* the dictionary, as the functions see it
              /\ eta' = [k \in 1..req.n |-> [base |-> o[k], by |-> 0]]
              /\ zeta' = [k \in 1..req.n |-> [base |-> o[k], by |-> 0]]
         /\ pc' = "eta" /\ UNCHANGED <<req, em, log>>

Replaced(f, m) == CASE f \in {"none", "same"} -> m
                    [] OTHER -> [k \in 1..Len(m) |-> [base |-> m[k].base, by |-> inp[k]]]
Eta == /\ pc = "eta"
       /\ eta' = Replaced(req.eta, eta)
       /\ log' = IF req.eta = "none" THEN log
                 ELSE Append(log, [f |-> "eta", inp |-> inp, eta |-> eta, zeta |-> zeta])
       /\ pc' = "zeta" /\ UNCHANGED <<req, inp, zeta, em>>
Zeta == /\ pc = "zeta"
        /\ zeta' = Replaced(req.zeta, zeta)
        /\ log' = IF req.zeta = "none" THEN log
                  ELSE Append(log, [f |-> "zeta", inp |-> inp, eta |-> eta, zeta |-> zeta])
        /\ pc' = "field" /\ UNCHANGED <<req, inp, eta, em>>
Field == /\ pc = "field"
         /\ em' = [of |-> [eta |-> eta, zeta |-> zeta], band |-> 0, domain |-> "f"]
         /\ pc' = "band" /\ UNCHANGED <<req, inp, eta, zeta, log>>
Band == /\ pc = "band"
        /\ IF req.band = "none" THEN UNCHANGED <<em, log>>
           ELSE /\ em' = [em EXCEPT !.band = @ + 1]
                /\ log' = Append(log, [f |-> "band", inp |-> inp, eta |-> eta, zeta |-> zeta])
        /\ pc' = "transform" /\ UNCHANGED <<req, inp, eta, zeta>>
Transform == /\ pc = "transform"
             /\ em' = IF req.dom = "t" THEN [em EXCEPT !.domain = "t"] ELSE em
             /\ pc' = "done" /\ UNCHANGED <<req, inp, eta, zeta, log>>

Next == Choose \/ Functions \/ Order \/ Eta \/ Zeta \/ Field \/ Band \/ Transform
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Calls(f) == Cardinality({i \in 1..Len(log) : log[i].f = f})
Sound ==
  pc = "done" =>
    \* layer for layer: a layer is only ever replaced using its own values
    /\ \A k \in 1..req.n : eta[k].by \in {0, eta[k].base} /\ zeta[k].by \in {0, zeta[k].base}
    /\ {eta[k].base : k \in 1..req.n} = 1..req.n
    /\ (req.eta \in {"none", "same"}) = (\A k \in 1..req.n : eta[k].by = 0)
    /\ em.of.eta = eta /\ em.of.zeta = zeta
    /\ em.band = (IF req.band = "none" THEN 0 ELSE 1)
    /\ \A f \in {"eta", "zeta", "band"} : Calls(f) <= 1
    \* the filter function sees the field before any transform, and the medium
    \* as replaced; zeta sees eta as replaced
    /\ \A i \in 1..Len(log) : log[i].f \in {"zeta", "band"} => log[i].eta = eta
    /\ \A i \in 1..Len(log) : log[i].f = "band" => log[i].zeta = zeta
Export == pc = "done" =>
  PrintT("@C" \o ToJson([req |-> req, eta |-> eta, zeta |-> zeta, em |-> em, log |-> log]))
=============================================================================
