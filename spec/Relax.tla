--------------------------------- MODULE Relax ---------------------------------
(***************************************************************************)
(* Time-domain signals as exact symbolic objects.                            *)
(*                                                                           *)
(* A causal field is a static part plus relaxation modes c/(1+s tau)^m with  *)
(* tau = 1/(n L), L = ln 2 (so that exp(-t/tau) = 2^(-n t)).  Signals live   *)
(* in the span of the constant and of                                        *)
(*          e[n,j](t) = 2^(-n t) (n L t)^j / j!                              *)
(* with integer coefficients; on this span the derivative is exact:          *)
(*          d e[n,j] / dt = n L ( e[n,j-1] - e[n,j] ).                       *)
(*                                                                           *)
(* A request is made of times, asked in any order and with repetition; the   *)
(* answers of a time-domain call are a function of (field, signal, time).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Rates, Orders, Coefs, Stat,  \* modes, static parts
          NMode,                       \* most modes per field
          Times, NTime,                \* times and longest request
          Methods,                     \* Fourier transforms (with options)
          Signals                      \* 1 on, 0 impulse, 2 off (-1)

VARIABLES modes, c0, modes2, want, sig, meth, answer, phase
vars == <<modes, c0, modes2, want, sig, meth, answer, phase>>

Idx == Rates \X (0..2)
Mode == [n: Rates, m: Orders, c: Coefs]

RECURSIVE SumF(_, _)
SumF(S, f) == IF S = {} THEN 0
              ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(S \ {x}, f)
Sum(S, f(_)) == SumF(S, [x \in S |-> f(x)])

\* Signal: [k: constant, e: coefficients of e[n,j], l: power of L in front].
Off(ms, c)  == [k |-> 0, l |-> 0,
                e |-> [x \in Idx |-> Sum({m \in ms : m.n = x[1] /\ x[2] < m.m},
                                         LAMBDA m : m.c)]]
DC(ms, c)   == c + Sum(ms, LAMBDA m : m.c)
On(ms, c)   == LET o == Off(ms, c)
               IN [k |-> DC(ms, c), l |-> 0, e |-> [x \in Idx |-> -o.e[x]]]
Imp(ms, c)  == [k |-> 0, l |-> 1,
                e |-> [x \in Idx |->
                        Sum({m \in ms : m.n = x[1] /\ x[2] = m.m - 1},
                            LAMBDA m : m.c*m.n)]]
Sig(s, ms, c) == CASE s = 1 -> On(ms, c) [] s = 0 -> Imp(ms, c) [] OTHER -> Off(ms, c)

\* Exact derivative of a signal with l = 0.
Deriv(f) == [k |-> 0, l |-> 1,
             e |-> [x \in Idx |->
                      x[1]*((IF x[2] < 2 THEN f.e[<<x[1], x[2]+1>>] ELSE 0) - f.e[x])]]
Neg(f)   == [f EXCEPT !.k = -f.k, !.e = [x \in Idx |-> -f.e[x]]]
Plus(f, g) == [f EXCEPT !.k = f.k + g.k, !.e = [x \in Idx |-> f.e[x] + g.e[x]]]
\* Value just after zero: e[n,0] = 1, e[n,j] = 0.
AtZero(f) == f.k + Sum({x \in Idx : x[2] = 0}, LAMBDA x : f.e[x])

Init == /\ modes = {} /\ c0 = 0 /\ modes2 = {} /\ phase = "pick"
        /\ want = <<>> /\ sig = 0 /\ meth = "" /\ answer = <<>>

\* The field(s): distinct rates, one mode after the other.
Mode1 == /\ phase = "pick" /\ Cardinality(modes) < NMode
         /\ \E m \in Mode : /\ \A a \in modes : a.n < m.n
                            /\ modes' = modes \cup {m}
         /\ UNCHANGED <<c0, modes2, want, sig, meth, answer, phase>>
Pick == /\ phase = "pick" /\ modes # {}
        /\ c0' \in Stat
        /\ modes2' \in {{}} \cup {{[n |-> n, m |-> m, c |-> 2]} :
                                    n \in Rates, m \in Orders}
        /\ phase' = "ask"
        /\ UNCHANGED <<modes, want, sig, meth, answer>>
Ask == /\ phase = "ask" /\ Len(want) < NTime
       /\ \E t \in Times : want' = Append(want, t)
       /\ UNCHANGED <<modes, c0, modes2, sig, meth, answer, phase>>
Call == /\ phase = "ask" /\ Len(want) > 0
        /\ sig' \in Signals /\ meth' \in Methods
        /\ phase' = "run"
        /\ UNCHANGED <<modes, c0, modes2, want, answer>>
\* The answer for the next time.
Step == /\ phase = "run" /\ Len(answer) < Len(want)
        /\ answer' = Append(answer, [t |-> want[Len(answer)+1],
                                     v |-> Sig(sig, modes, c0)])
        /\ UNCHANGED <<modes, c0, modes2, want, sig, meth, phase>>
Done == /\ phase = "run" /\ Len(answer) = Len(want) /\ phase' = "done"
        /\ UNCHANGED <<modes, c0, modes2, want, sig, meth, answer>>
Next == Mode1 \/ Pick \/ Ask \/ Call \/ Step \/ Done
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
OnOff      == Plus(On(modes, c0), Off(modes, c0)) =
              [k |-> DC(modes, c0), l |-> 0, e |-> [x \in Idx |-> 0]]
Derivative == /\ Deriv(On(modes, c0)) = Imp(modes, c0)
              /\ Deriv(Off(modes, c0)) = Neg(Imp(modes, c0))
\* Nothing before the switch: switching on starts from the instantaneous part.
Causal     == /\ AtZero(On(modes, c0)) = c0
              /\ AtZero(Off(modes, c0)) = DC(modes, c0) - c0
\* Linear in the field.
Linear     == \A s \in {0, 1, 2} :
                 (modes2 # {} /\ \A a \in modes, b \in modes2 : a.n # b.n) =>
                 Sig(s, modes \cup modes2, c0) =
                 Plus(Sig(s, modes, c0), Sig(s, modes2, 0))
\* Equal times get equal answers, whatever else is asked.
ByTime     == \A i, j \in 1..Len(answer) :
                 answer[i].t = answer[j].t => answer[i] = answer[j]

Flat(f) == [k |-> f.k, l |-> f.l,
            e |-> {<<x[1], x[2], f.e[x]>> : x \in {y \in Idx : f.e[y] # 0}}]
Export ==
  phase = "done" =>
   PrintT("@C" \o ToJson([modes |-> modes, c0 |-> c0, modes2 |-> modes2,
      want |-> want, sig |-> sig, meth |-> meth,
      dc |-> DC(modes, c0), val |-> Flat(Sig(sig, modes, c0)),
      val2 |-> Flat(Sig(sig, modes2, 0))]))
================================================================================
