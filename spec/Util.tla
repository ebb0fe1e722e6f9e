-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by all specifications.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Elems(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE SumTo(F, n - 1) + F(n)

SumSeq(s) == LET F(i) == s[i] IN SumTo(F, Len(s))

RECURSIVE SumOver(_, _)
SumOver(F(_), S) == IF S = {} THEN 0
                    ELSE LET x == CHOOSE y \in S : TRUE
                         IN F(x) + SumOver(F, S \ {x})

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

Near(a, b, tol) == a - b <= tol /\ b - a <= tol

(* floor division and non-negative remainder for a positive divisor        *)
FloorDiv(a, n) == a \div n
Mod(a, n) == a % n

IsPermOf(s, n) == Len(s) = n /\ Elems(s) = 0..(n - 1)

(* vectors of length 3 *)
VAdd(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
VSub(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
VNeg(u) == <<-u[1], -u[2], -u[3]>>
VScale(k, u) == <<k * u[1], k * u[2], k * u[3]>>
Zero3 == <<0, 0, 0>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
(* row vector times matrix (rows are lattice vectors) *)
VMat(u, m) == <<u[1]*m[1][1] + u[2]*m[2][1] + u[3]*m[3][1],
                u[1]*m[1][2] + u[2]*m[2][2] + u[3]*m[3][2],
                u[1]*m[1][3] + u[2]*m[2][3] + u[3]*m[3][3]>>
Cross(u, v) == <<u[2]*v[3] - u[3]*v[2], u[3]*v[1] - u[1]*v[3],
                 u[1]*v[2] - u[2]*v[1]>>
Det3(m) == Dot(m[1], Cross(m[2], m[3]))
=============================================================================
