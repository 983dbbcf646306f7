---------------------------------- MODULE Rat ----------------------------------
(***************************************************************************)
(* Exact Gaussian rationals (a+bi)/c, written as strings "a b c" in lowest   *)
(* terms.  The operators are implemented by java/Rat.java, which TLC loads   *)
(* in place of the definitions below (TLC's integers have 32 bits).          *)
(***************************************************************************)
EXTENDS Integers

CNum(re, im, den) == "0 0 1"    \* (re + i im)/den
CAdd(a, b) == "0 0 1"
CSub(a, b) == "0 0 1"
CMul(a, b) == "0 0 1"
CDiv(a, b) == "0 0 1"
CCmp(a, b) == 0                 \* sign of |a| - |b|

C0 == CNum(0, 0, 1)
C1 == CNum(1, 0, 1)
CNeg(a) == CSub(CNum(0, 0, 1), a)
RECURSIVE CPow(_, _)
CPow(a, k) == IF k = 0 THEN CNum(1, 0, 1) ELSE CMul(a, CPow(a, k-1))
RatLoaded == CAdd(CNum(1, 0, 2), CNum(1, 0, 2)) = "1 0 1"
================================================================================
