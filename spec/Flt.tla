-------------------------------- MODULE Flt --------------------------------
(* Positive floating numbers <<m, e>> = m * 10^e with a six-digit mantissa   *)
(* (<<0, 0>> is zero, <<-1, 0>> is not a number or infinite), for norms that *)
(* range over many orders of magnitude.                                      *)
EXTENDS Integers, Sequences
FIsNan(a) == a[1] < 0
RECURSIVE FNormed(_, _)
FNormed(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m > 999999 THEN FNormed(m \div 10, e + 1) ELSE IF m < 100000 THEN FNormed(m * 10, e - 1) ELSE <<m, e>>
F6(v) == FNormed(v, -6)                  \* from a fixed-point number
FLe(a, b) == IF a[1] = 0 THEN TRUE ELSE IF b[1] = 0 THEN FALSE ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] <= b[1]
FTimes(a, d, e) == FNormed(a[1] * d, a[2] + e)            \* a * d * 10^e, 0 < d < 1000
\* a <= b: "yes", "no", or "either" within a relative 10^-4
FCmp(a, b) == IF FIsNan(a) THEN "no" ELSE
   LET up == FNormed(b[1] + b[1] \div 10000 + 1, b[2]) lo == FNormed(b[1] - b[1] \div 10000 - 1, b[2])
   IN IF a[1] = 0 THEN "yes" ELSE IF b[1] = 0 THEN "no" ELSE IF FLe(a, lo) THEN "yes" ELSE IF FLe(a, up) THEN "either" ELSE "no"
=============================================================================
