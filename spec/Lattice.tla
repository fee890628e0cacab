------------------------------ MODULE Lattice ------------------------------
(***************************************************************************)
(* Exact integer geometry shared by the other modules.                     *)
(*                                                                         *)
(* Lengths are integers in quarter units (4 = one metre of the engine), so *)
(* every coordinate that is produced is exactly representable in floating  *)
(* point.  Orientations are the 24 rotation matrices of the cube.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(x)    == IF x < 0 THEN -x ELSE x
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b
Ax        == 1..3

V0          == <<0,0,0>>
VAdd(a,b)   == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
VSub(a,b)   == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
VScale(k,a) == <<k*a[1], k*a[2], k*a[3]>>
Dot(a,b)    == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a,b)  == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
NormSq(a)   == Dot(a,a)

\* Matrices are tuples of rows
Id3         == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
MV(M,v)     == <<Dot(M[1],v), Dot(M[2],v), Dot(M[3],v)>>
Tr(M)       == << <<M[1][1],M[2][1],M[3][1]>>, <<M[1][2],M[2][2],M[3][2]>>, <<M[1][3],M[2][3],M[3][3]>> >>
MM(A,B)     == LET T == Tr(B) IN << <<Dot(A[1],T[1]),Dot(A[1],T[2]),Dot(A[1],T[3])>>,
                                    <<Dot(A[2],T[1]),Dot(A[2],T[2]),Dot(A[2],T[3])>>,
                                    <<Dot(A[3],T[1]),Dot(A[3],T[2]),Dot(A[3],T[3])>> >>
Det(M)      == Dot(M[1], Cross(M[2], M[3]))
AbsMV(M,h)  == << Abs(M[1][1])*h[1] + Abs(M[1][2])*h[2] + Abs(M[1][3])*h[3],
                  Abs(M[2][1])*h[1] + Abs(M[2][2])*h[2] + Abs(M[2][3])*h[3],
                  Abs(M[3][1])*h[1] + Abs(M[3][2])*h[2] + Abs(M[3][3])*h[3] >>

Unit(i, s)  == [k \in Ax |-> IF k = i THEN s ELSE 0]
TupOf(f)    == <<f[1], f[2], f[3]>>
\* The 24 rotations of the cube: signed permutation matrices of determinant 1
Rots == { M \in { << TupOf(Unit(i,a)), TupOf(Unit(j,b)), TupOf(Unit(k,c)) >> :
                    i \in Ax, j \in Ax, k \in Ax, a \in {-1,1}, b \in {-1,1}, c \in {-1,1} } : Det(M) = 1 }
=============================================================================
