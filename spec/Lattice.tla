------------------------------- MODULE Lattice -------------------------------
(* Integer lattices: coordinates, reciprocal vectors, k-point generators.   *)
EXTENDS Phase

Adj(L) == <<Cross(L[2], L[3]), Cross(L[3], L[1]), Cross(L[1], L[2])>>
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* |det| / (2 pi) times the reciprocal vectors *)
RecipDet(L) == [i \in 1..3 |-> VScale(Sgn(Det3(L)), Adj(L)[i])]
Area2(L, d) == LET v == Adj(L)[d] IN Dot(v, v)
Volume(L) == Abs(Det3(L))
Frac2Cart(L, p, org, u) == VAdd(VMat(p, L), VScale(u, org))  \* in 1/u
(* det times the fractional coordinate of an integer vector *)
FracDet(L, v) == <<Dot(v, Adj(L)[1]), Dot(v, Adj(L)[2]), Dot(v, Adj(L)[3])>>

(* uniform mesh, first index slowest; coordinates as numerators *)
KMesh(n) == [i \in 1..(n[1]*n[2]*n[3]) |->
               <<(i-1) \div (n[2]*n[3]), ((i-1) \div n[3]) % n[2], (i-1) % n[3]>>]

(* path through hs (in 1/12) with num[i] (dividing 60) steps, in 1/720 *)
RECURSIVE KPath(_, _)
KPath(hs, num) ==
    IF Len(num) = 0 THEN <<VScale(60, hs[1])>>
    ELSE [j \in 1..num[1] |->
            VAdd(VScale(60, hs[1]),
                 VScale((j - 1) * (60 \div num[1]), VSub(hs[2], hs[1])))]
         \o KPath(Tail(hs), Tail(num))
HsIndex(num) == [i \in 1..(Len(num) + 1) |-> SumSeq(SubSeq(num, 1, i - 1))]

(* squared length of a reciprocal vector given in 1/12: times (12 det/2pi)^2 *)
KLen2(L, dk) == LET A == Adj(L)
                    v == VAdd(VAdd(VScale(dk[1], A[1]), VScale(dk[2], A[2])),
                              VScale(dk[3], A[3]))
                IN Dot(v, v)

(* rotation by m/720 turn about an axis through center, in 10^-6 *)
Rot(v, m, ax, ctr) ==
    LET d == VSub(v, ctr)
        c == Cos720(m)
        s == Sin720(m)
        a == CASE ax = "x" -> 1 [] ax = "y" -> 2 [] ax = "z" -> 3
        b == (a % 3) + 1
        e == (b % 3) + 1
        r == [i \in 1..3 |-> IF i = a THEN PScale * d[a]
                             ELSE IF i = b THEN c * d[b] - s * d[e]
                             ELSE s * d[b] + c * d[e]]
    IN <<r[1] + PScale * ctr[1], r[2] + PScale * ctr[2], r[3] + PScale * ctr[3]>>
=============================================================================
