-------------------------------- MODULE DecMC -------------------------------
(* The decimal arithmetic of the specification against exact rationals.      *)
EXTENDS Dec, Num
VARIABLES a, b
Ns == {-99999, -1234, -100, -7, -1, 0, 1, 3, 10, 99, 4097, 99999}
Ds == {1, 3, 7, 1000, 997}
Init == \E n \in Ns : \E d \in Ds : \E n2 \in Ns : \E d2 \in Ds : a = <<n, d>> /\ b = <<n2, d2>>
Next == UNCHANGED <<a, b>>
D(x) == DRat(x[1], x[2])
Rel == <<30000000, -14>>       \* 3 * 10^-7
\* |computed - exact| small relative to the operands, comparing through exact multiplication by the denominator
Ok(c, n, d) == DVanish(<<DMul(c, DInt(d)), DNeg(DInt(n))>>, DZero, Rel)
Shape(x) == x = DZero \/ (x[1] >= 10000000 /\ x[1] < 100000000) \/ (x[1] <= -10000000 /\ x[1] > -100000000)
Mul2 ==
        Abs(a[1]) > 20000 \/ Abs(b[1]) > 20000 \/ Ok(DMul(D(a), D(b)), a[1] * b[1], a[2] * b[2])
Add2 == Abs(a[1]) > 20000 \/ Abs(b[1]) > 20000 \/
        LET s == DAdd(D(a), D(b)) IN Shape(s) /\ DVanish(<<DMul(s, DInt(a[2] * b[2])), DNeg(DInt(a[1] * b[2])), DNeg(DInt(b[1] * a[2]))>>, DZero, Rel)
Div2 == b[1] = 0 \/ LET q == DDiv(D(a), D(b)) IN Shape(q) /\ DVanish(<<DMul(q, D(b)), DNeg(D(a))>>, DZero, Rel)
Ord == Abs(a[1]) > 20000 \/ Abs(b[1]) > 20000 \/ a[1] * b[2] = b[1] * a[2] \/ (DLe(D(a), D(b)) <=> a[1] * b[2] < b[1] * a[2])
Root == a[1] <= 0 \/ LET r == DSqrt(D(a)) IN DVanish(<<DSq(r), DNeg(D(a))>>, DZero, Rel)
=============================================================================
