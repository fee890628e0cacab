-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic: a number is <<n,d>> with d > 0 and gcd 1.    *)
(* Sums and products reduce crosswise so that intermediate results stay    *)
(* within TLC's 32-bit integers for the magnitudes the modules allow.      *)
(***************************************************************************)
EXTENDS Lattice
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b, a - b*(a \div b))
Rz == <<0,1>>
R(n) == <<n,1>>
Rat2(n,d) == LET s == IF d < 0 THEN -1 ELSE 1  g == Gcd(Abs(n),Abs(d)) IN <<(s*n) \div g, (s*d) \div g>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a,b) == LET g == Gcd(a[2],b[2])  n == a[1]*(b[2] \div g) + b[1]*(a[2] \div g)  h == Gcd(Abs(n),g)
             IN <<n \div h, (a[2] \div h) * (b[2] \div g)>>
RSub(a,b) == RAdd(a, RNeg(b))
RMul(a,b) == IF a[1] = 0 \/ b[1] = 0 THEN Rz
             ELSE LET g == Gcd(Abs(a[1]),b[2])  h == Gcd(Abs(b[1]),a[2]) IN <<(a[1] \div g)*(b[1] \div h), (a[2] \div h)*(b[2] \div g)>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a,b) == RMul(a, RInv(b))
RK(k,a) == RMul(R(k), a)
\* vectors of rationals
RV(v) == <<R(v[1]), R(v[2]), R(v[3])>>
RV0 == <<Rz,Rz,Rz>>
QAdd(a,b) == <<RAdd(a[1],b[1]), RAdd(a[2],b[2]), RAdd(a[3],b[3])>>
QNeg(a) == <<RNeg(a[1]), RNeg(a[2]), RNeg(a[3])>>
QSub(a,b) == QAdd(a, QNeg(b))
QScale(k,a) == <<RMul(k,a[1]), RMul(k,a[2]), RMul(k,a[3])>>
QHad(a,b) == <<RMul(a[1],b[1]), RMul(a[2],b[2]), RMul(a[3],b[3])>>       \* component by component
QCross(a,b) == << RSub(RMul(a[2],b[3]),RMul(a[3],b[2])), RSub(RMul(a[3],b[1]),RMul(a[1],b[3])), RSub(RMul(a[1],b[2]),RMul(a[2],b[1])) >>
\* a rotation of the cube applied to a vector of rationals
PickR(row,v) == RAdd(RAdd(RK(row[1],v[1]), RK(row[2],v[2])), RK(row[3],v[3]))
QRot(M,v) == <<PickR(M[1],v), PickR(M[2],v), PickR(M[3],v)>>
RIn(a,n,d) == Abs(a[1]) <= n * (IF n < 1000 THEN a[2] ELSE 1) /\ a[2] <= d
QIn(v,n,d) == RIn(v[1],n,d) /\ RIn(v[2],n,d) /\ RIn(v[3],n,d)
=============================================================================
