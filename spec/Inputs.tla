-------------------------------- MODULE Inputs --------------------------------
(***************************************************************************)
(* Which calls are well-formed.                                             *)
(*                                                                           *)
(* A call is abstracted to the sizes and classes of its arguments.  Starting *)
(* from a well-formed call, up to MaxEdits arguments are replaced.  Verdict  *)
(* is the documented rule; the driver makes the call concrete and checks     *)
(* that the code raises an error if and only if the verdict is "reject".     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Routines, MaxEdits

Absent == -1

VARIABLES call, edits, routine
vars == <<call, edits, routine>>

LayerPars == {"aniso", "epermH", "epermV", "mpermH", "mpermV"}
Abs == { 10*i + j : i \in 1..6, j \in 1..6 }

(* --- which arguments a routine has ------------------------------------------ *)
IsBipole(r)  == r \in {"bipole", "loop"}
HasDepth(r)  == r # "analytical"
HasSignal(r) == r \in {"bipole", "loop", "dipole", "analytical"}
HasAb(r)     == r \in {"dipole", "analytical", "dipole_k", "gpr", "ip_and_q"}
HasHt(r)     == r \in {"bipole", "loop", "dipole", "gpr", "ip_and_q"}
HasFt(r)     == r \in {"bipole", "loop", "dipole", "gpr"}

Good(r) ==
  [ k |-> IF HasDepth(r) THEN 2 ELSE 0,   \* number of interfaces
    order |-> "down",
    nres |-> IF HasDepth(r) THEN 3 ELSE 1,
    extra |-> Absent,
    par |-> [p \in LayerPars |-> Absent],
    sar |-> IF IsBipole(r) THEN 5 ELSE 3,     \* entries of src
    ssz |-> <<1, 1, 1, 1, 1, 1, 1>>,          \* sizes of the entries
    slen |-> TRUE,                            \* finite bipole of non-zero length
    rar |-> IF IsBipole(r) THEN 5 ELSE 3,
    rsz |-> <<1, 1, 1, 1, 1, 1, 1>>,
    rlen |-> TRUE,
    ab |-> IF r = "ip_and_q" THEN 55 ELSE 12, signal |-> "none",
    ht |-> "dlf", ft |-> "dlf", sol |-> "fs" ]

(* --- the documented rules ------------------------------------------------------ *)
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(s, n) == LET RECURSIVE M(_) M(i) == IF i = 1 THEN s[1] ELSE Max2(s[i], M(i-1)) IN M(n)

LayersOK(c) ==
  /\ c.order \in {"down", "up", "inf"}
  /\ c.nres = c.k + 1
  /\ c.extra \in {Absent, c.k + 1}
  /\ \A p \in LayerPars : c.par[p] \in {Absent, c.k + 1}

DipoleOK(ar, sz) ==
  /\ ar = 3
  /\ (sz[1] = sz[2] \/ sz[1] = 1 \/ sz[2] = 1)
  /\ sz[3] = 1

BipoleOK(ar, sz, len) ==
  /\ ar \in {5, 6}
  /\ \A i \in 1..ar : sz[i] \in {1, MaxOf(sz, ar)}
  /\ (ar = 6 => len)

EndsOK(r, c) ==
  IF IsBipole(r)
  THEN BipoleOK(c.sar, c.ssz, c.slen) /\ BipoleOK(c.rar, c.rsz, c.rlen)
  ELSE DipoleOK(c.sar, c.ssz) /\ DipoleOK(c.rar, c.rsz)

SignalOK(c) == c.signal \in {"none", "-1", "0", "1", "wave"}
HtOK(c) == c.ht \in {"dlf", "DLF"}
FtOK(c) == c.ft \in {"dlf", "DLF"}
Electric(ab) == ab \div 10 <= 3 /\ ab % 10 <= 3
SolOK(c) ==
  /\ c.sol \in {"fs", "dfs", "dhs", "dsplit", "dtetm"}
  /\ c.sol # "fs" => Electric(c.ab)
  /\ c.sol = "fs" => c.signal = "none"

Accept(r, c) ==
  /\ LayersOK(c)
  /\ EndsOK(r, c)
  /\ HasSignal(r) => SignalOK(c)
  /\ HasAb(r) => c.ab \in Abs
  /\ r = "ip_and_q" => c.ab \div 10 >= 4 /\ c.ab % 10 >= 4
  /\ HasHt(r) => HtOK(c)
  \* The Fourier transform is only looked at if one is needed.
  /\ (HasFt(r) /\ (c.signal # "none" \/ r = "gpr")) => FtOK(c)
  /\ r = "analytical" => SolOK(c) /\ c.signal # "wave"

(* --- edits ------------------------------------------------------------------------ *)
Sizes(c) == {Absent, c.k, c.k + 1, c.k + 2}
Entry(s, i, v) == [s EXCEPT ![i] = v]

Edit(r, c) ==
     { [c EXCEPT !.k = v, !.order = "down"] : v \in IF HasDepth(r) THEN {0, 1, 3} ELSE {} }
  \* Another number of layers, consistently; the interfaces in some order.
  \cup { [c EXCEPT !.k = v, !.nres = v + 1, !.order = "down"] : v \in IF HasDepth(r) THEN {0, 1, 3} ELSE {} }
  \cup { [c EXCEPT !.k = 3, !.nres = 4, !.order = v] :
           v \in IF HasDepth(r) THEN {"up", "zigzag", "inf"} ELSE {} }
  \cup { [c EXCEPT !.order = v] :
           v \in IF HasDepth(r) /\ c.k >= 2
                 THEN {"up", "inf"} \cup (IF c.k >= 3 THEN {"zigzag"} ELSE {}) ELSE {} }
  \cup { [c EXCEPT !.nres = v] : v \in {1, 2, 3, 4} }
  \cup { [c EXCEPT !.extra = v] : v \in IF r = "ip_and_q" THEN {} ELSE Sizes(c) \ {0} }
  \cup UNION { { [c EXCEPT !.par[p] = v] : v \in Sizes(c) \ {0} } : p \in LayerPars }
  \cup { [c EXCEPT !.sar = v] : v \in 2..7 }
  \cup { [c EXCEPT !.rar = v] : v \in 2..7 }
  \cup UNION { { [c EXCEPT !.ssz[i] = v] : v \in {2, 3} } : i \in 1..c.sar }
  \cup UNION { { [c EXCEPT !.rsz[i] = v] : v \in {2, 3} } : i \in 1..c.rar }
  \cup (IF IsBipole(r)
        THEN { [c EXCEPT !.sar = 6, !.slen = v] : v \in BOOLEAN }
        \cup { [c EXCEPT !.rar = 6, !.rlen = v] : v \in BOOLEAN } ELSE {})
  \cup { [c EXCEPT !.ab = v] :
           v \in IF HasAb(r) THEN {0, 7, 10, 11, 17, 20, 33, 36, 44, 56, 63, 64, 66, 67, 70, 71,
                                   111, -11} ELSE {} }
  \cup { [c EXCEPT !.signal = v] :
           v \in IF HasSignal(r)
                 THEN {"-1", "0", "1", "wave", "2", "-2", "1.7", "0.5", "wave2", "str"} ELSE {} }
  \cup { [c EXCEPT !.ht = v] :
           v \in IF HasHt(r) THEN {"DLF", "", "qu", "dl", "fht", "hqwe", "dlf "} ELSE {} }
  \cup { [c EXCEPT !.ft = v] :
           v \in IF HasFt(r) THEN {"DLF", "", "ff", "sin", "fftlo", "qweqwe", "dlf "} ELSE {} }
  \cup { [c EXCEPT !.sol = v] :
           v \in IF r = "analytical"
                 THEN {"dfs", "dhs", "dsplit", "dtetm", "hs", "d", "", "DHS", "dxx"} ELSE {} }

Init == /\ routine \in Routines
        /\ call = Good(routine)
        /\ edits = 0
Next == /\ edits < MaxEdits
        /\ \E c \in Edit(routine, call) : c # call /\ call' = c
        /\ edits' = edits + 1
        /\ UNCHANGED routine
Spec == Init /\ [][Next]_vars
View == <<call, routine>>

(* --- sanity of the rules ------------------------------------------------------------ *)
UneditedAccepted == edits = 0 => Accept(routine, call)
\* The rules do not distinguish the vertical from the horizontal parameters.
ParSymmetric ==
  \A p, q \in LayerPars :
    Accept(routine, call) =
      Accept(routine, [call EXCEPT !.par[p] = call.par[q], !.par[q] = call.par[p]])
\* Source and receiver are treated alike by the rules about sizes.
EndsSymmetric ==
  EndsOK(routine, call) =
    EndsOK(routine, [call EXCEPT !.sar = call.rar, !.rar = call.sar,
                                 !.ssz = call.rsz, !.rsz = call.ssz,
                                 !.slen = call.rlen, !.rlen = call.slen])

Export == PrintT("@C" \o ToJson([routine |-> routine, call |-> call, edits |-> edits,
                                 accept |-> Accept(routine, call)]))
=============================================================================
