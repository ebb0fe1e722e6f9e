------------------------------- MODULE MCSlater -------------------------------
(* Identities of the specified integrals, exact in Z[sqrt 3]:                *)
(*  - the l x l' blocks are rotations of the diagonal bond frame: products of *)
(*    blocks, traces;                                                          *)
(*  - selected entries of Slater and Koster's table;                           *)
(*  - [L_i, L_j] = i eps L_k, L^2 = l(l+1), hermiticity of L.S.               *)
EXTENDS Slater
CONSTANT Big
VARIABLE x
Vecs == {<<0, 0, 1>>, <<1, 0, 0>>, <<0, -1, 0>>, <<1, 2, 2>>, <<-2, 1, 2>>, <<2, -2, -1>>,
         <<3, 4, 0>>, <<0, -3, 4>>}
        \cup (IF Big THEN {<<2, 3, 6>>, <<-6, 2, 3>>, <<3, -6, 2>>, <<1, 4, 8>>, <<-4, 8, 1>>, <<8, -1, -4>>,
                           <<2, 1, -2>>, <<4, 0, -3>>, <<-2, -2, -1>>} ELSE {})
Norm(r) == CHOOSE n \in 1..9 : n * n = Dot(r, r)
Init == x \in Vecs
Next == UNCHANGED x
n0 == Norm(x)
n2 == n0 * n0
D == 12 * n2 * n2
Zr == R(0)
RECURSIVE RSum(_, _)
RSum(F(_), S) == IF S = {} THEN Zr
                 ELSE LET q == CHOOSE y \in S : TRUE IN RAdd(F(q), RSum(F, S \ {q}))
(* p and d blocks of each bond symmetry, as projectors scaled by D *)
P(k, a, b) == PPc(x, n0, a, b)[k]
Q(k, a, b) == DDc(x, n0, a, b)[k]
(* sizes: D ~ 12 n^4; products overflow for n = 9, so reduce by common factors:
   only n <= 3 are multiplied out *)
Small == n0 <= 3
Projectors(Lb, F(_, _, _), K) ==
    /\ \A k \in K : \A a, b \in Lb : F(k, a, b) = F(k, b, a)
    /\ \A a, b \in Lb : LET G(k) == F(k, a, b) IN RSum(G, K) = R(IF a = b THEN D ELSE 0)
    /\ (Small => \A k, m \in K : \A a, b \in Lb :
          LET G(e) == RMul(F(k, a, e), F(m, e, b))
          IN RSum(G, Lb) = (IF k = m THEN RK(D, F(k, a, b)) ELSE Zr))
Trace(Lb, F(_, _, _), k) == LET G(a) == F(k, a, a) IN RSum(G, Lb)
InvProj == /\ Projectors(PLabs, P, 1..2)
           /\ Projectors(DLabs, Q, 1..3)
           /\ Trace(PLabs, P, 1) = R(D) /\ Trace(PLabs, P, 2) = R(2*D)
           /\ Trace(DLabs, Q, 1) = R(D) /\ Trace(DLabs, Q, 2) = R(2*D)
           /\ Trace(DLabs, Q, 3) = R(2*D)
(* p-d block: W_k W_k^T is the p projector, W_k^T W_k the d projector *)
W(k, a, b) == PDc(x, n0, a, b)[k]
InvPD == Small =>
    /\ \A k, m \in 1..2 : \A a, b \in PLabs :
          LET G(e) == RMul(W(k, a, e), W(m, b, e))
          IN RSum(G, DLabs) = (IF k = m THEN RK(D, P(k, a, b)) ELSE Zr)
    /\ \A k, m \in 1..2 : \A a, b \in DLabs :
          LET G(e) == RMul(W(k, e, a), W(m, e, b))
          IN RSum(G, PLabs) = (IF k = m THEN RK(D, Q(k, a, b)) ELSE Zr)
    (* s with p and d: the sigma direction *)
    /\ \A b \in DLabs :
          LET G(a) == RMul(SPc(x, n0, a)[1], W(1, a, b))
          IN RSum(G, PLabs) = RK(D, SDc(x, n0, b)[1])
(* entries of the table in Phys. Rev. 94, 1498 *)
l == x[1]
m == x[2]
n == x[3]
InvTable ==
    /\ SDc(x, n0, "dxy")[1] = <<0, 12*n2*l*m>>
    /\ SDc(x, n0, "dx2-y2")[1] = <<0, 6*n2*(l*l - m*m)>>
    /\ SDc(x, n0, "dz2")[1] = R(6*n2*(2*n*n - l*l - m*m))
    /\ PDc(x, n0, "px", "dxy") = <<<<0, 12*n0*l*l*m>>, R(12*n0*m*(n2 - 2*l*l)), Zr>>
    /\ PDc(x, n0, "px", "dyz") = <<<<0, 12*n0*l*m*n>>, R(-24*n0*l*m*n), Zr>>
    /\ PDc(x, n0, "pz", "dz2") = <<R(6*n0*n*(2*n*n - l*l - m*m)), <<0, 12*n0*n*(l*l + m*m)>>, Zr>>
    /\ PDc(x, n0, "py", "dx2-y2") = <<<<0, 6*n0*m*(l*l - m*m)>>, R(-12*n0*m*(n2 + l*l - m*m)), Zr>>
    /\ DDc(x, n0, "dxy", "dxy") = <<R(36*l*l*m*m), R(12*(n2*(l*l + m*m) - 4*l*l*m*m)),
                                    R(12*(n2*n*n + l*l*m*m))>>
    /\ DDc(x, n0, "dxy", "dyz") = <<R(36*l*m*m*n), R(12*l*n*(n2 - 4*m*m)), R(12*l*n*(m*m - n2))>>
    /\ DDc(x, n0, "dx2-y2", "dz2") = <<<<0, 3*(l*l - m*m)*(2*n*n - l*l - m*m)>>,
                                       <<0, -12*n*n*(l*l - m*m)>>,
                                       <<0, 3*(n2 + n*n)*(l*l - m*m)>>>>
(* angular momentum (scaled by 6, times -i) *)
Lk(k, a, b) == L6(k, a, b)
InvL == \A Lb \in {PLabs, DLabs} :
    LET ll == IF Lb = PLabs THEN 1 ELSE 2 IN
    /\ \A k \in 1..3 : \A a, b \in Lb : Lk(k, a, b) = RK(-1, Lk(k, b, a))
    /\ \A i, j \in 1..3 : i # j =>
         LET k == 6 - i - j IN
         \A a, b \in Lb :
            LET G(e) == RSub(RMul(Lk(i, a, e), Lk(j, e, b)), RMul(Lk(j, a, e), Lk(i, e, b)))
            IN (* (i M_i)(i M_j) - ... = - (M_i M_j - M_j M_i) = i eps (i M_k) 6 *)
               RSum(G, Lb) = RK(6 * Eps(i, j, k), Lk(k, a, b))
    /\ \A a, b \in Lb :
         LET G(e) == RAdd(RAdd(RMul(Lk(1, a, e), Lk(1, e, b)), RMul(Lk(2, a, e), Lk(2, e, b))),
                          RMul(Lk(3, a, e), Lk(3, e, b)))
         IN RSum(G, Lb) = R(IF a = b THEN -36 * ll * (ll + 1) ELSE 0)
InvLS == \A a, b \in Labs : \A s, t \in {"up", "down"} :
            LET p == LS12(a, s, b, t)
                q == LS12(b, t, a, s)
            IN p[1] = q[1] /\ p[2] = RK(-1, q[2])
Inv == InvProj /\ InvPD /\ InvTable
InvAng == x = <<0, 0, 1>> => (InvL /\ InvLS)
=============================================================================
