------------------------------ MODULE FixElem ------------------------------
(* The reference elements over fixed-point numbers (six decimals).           *)
EXTENDS Num
FA(x, y) == x + y
FK(n) == n * S6
F == INSTANCE RefElem WITH A <- FA, M <- FMul, K <- FK
=============================================================================
