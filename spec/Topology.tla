------------------------------- MODULE Topology -------------------------------
(* Wilson loops of the occupied states, crossing numbers, and spin textures.  *)
EXTENDS Spectral

(* ------------------------------ Wilson loop -------------------------------- *)
(* F[a][b] = <v_a(k)|v_b(k')> over the occupied states                        *)
Link(V, W, occ) == TLCEval([a \in 1..occ |-> TLCEval([b \in 1..occ |-> VDot(V[a], W[b])])])
MMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                 LET F(k) == CMul(A[i][k], B[k][j]) IN CSumTo(F, Len(B))])])
Trace(A) == LET F(i) == A[i][i] IN CSumTo(F, Len(A))
(* product of the links around the closed loop Vs[1] -> Vs[2] -> ... -> Vs[1] *)
RECURSIVE LoopTo(_, _, _)
LoopTo(Vs, occ, n) ==
    LET nx == IF n = Len(Vs) THEN 1 ELSE n + 1
        F == Link(Vs[n], Vs[nx], occ)
    IN IF n = 1 THEN F ELSE MMul(LoopTo(Vs, occ, n - 1), F)
Wilson(Vs, occ) == LoopTo(Vs, occ, Len(Vs))
RECURSIVE MPow(_, _), CPow(_, _)
MPow(A, p) == IF p = 1 THEN A ELSE MMul(A, MPow(A, p - 1))
CPow(z, p) == IF p = 1 THEN z ELSE CMul(z, CPow(z, p - 1))
(* lam is the list of eigenvalues of A with multiplicities (power sums)        *)
IsSpectrum(A, lam, tol) ==
    /\ Len(lam) = Len(A)
    /\ \A p \in 1..Len(A) :
        LET F(i) == CPow(lam[i], p)
        IN CNear(CSumTo(F, Len(lam)), Trace(MPow(A, p)), tol)
(* the direction <<cos, sin>> is the argument of z                             *)
IsArg(z, u, tol) == /\ Abs(FMul(z[1], u[2]) - FMul(z[2], u[1])) <= tol
                    /\ FMul(z[1], u[1]) + FMul(z[2], u[2]) > 0
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
(* the directions us are, in some order, the arguments of lam; numbers close  *)
(* to zero have no argument                                                   *)
ArgsMatch(lam, us, tol) ==
    \E f \in Perms(Len(lam)) : \A i \in 1..Len(lam) :
        CAbs2(lam[i]) < 2500 \/ IsArg(lam[i], us[f[i]], tol)
Gapped(E, occ, gap) == occ = Len(E) \/ E[occ + 1] - E[occ] > gap

(* ---------------------------- crossing number ------------------------------ *)
Crossings(P, ref) ==
    LET cr(i, j) == LET d1 == P[i][j] - ref
                        d2 == P[i+1][j] - ref
                    IN (d1 < 0 /\ d2 > 0) \/ (d1 > 0 /\ d2 < 0)
        all == {<<i, j>> : i \in 1..(Len(P) - 1), j \in 1..(IF Len(P) = 0 THEN 0 ELSE Len(P[1]))}
    IN Cardinality({q \in all : cr(q[1], q[2])})

(* ------------------------------ spin texture -------------------------------- *)
UpOf(v, major) == LET n == Len(v) \div 2 IN
                  [i \in 1..n |-> IF major THEN v[i] ELSE v[2 * i - 1]]
DnOf(v, major) == LET n == Len(v) \div 2 IN
                  [i \in 1..n |-> IF major THEN v[n + i] ELSE v[2 * i]]
SpinExp(v, comp, major) ==
    LET u == UpOf(v, major)
        d == DnOf(v, major)
        ud == VDot(u, d)
    IN CASE comp = "x" -> 2 * ud[1]
         [] comp = "y" -> 2 * ud[2]
         [] comp = "z" -> VDot(u, u)[1] - VDot(d, d)[1]
===============================================================================
