--------------------------------- MODULE Tbpm ---------------------------------
(* Time-dependent propagation. The Hamiltonian is given by a certified        *)
(* spectrum (E, V); times are counted in half steps h of pi / (2 f) for a      *)
(* Hamiltonian rescaled by f, a multiple of 9. A random initial state (or an  *)
(* average over several) is a density matrix R over the orbitals.             *)
EXTENDS Spectral

(* exp(i x h pi / (2 f)), x in 10^-6 eV                                       *)
Cis(x, h, f) ==
    LET u == (50000 * f) \div 9                 \* 1/720 of a turn
        r == (x * h) % (4 * f * ONE)
        m == r \div u
        d == RDiv(FMul(r % u, PI6), 2 * f)
        cd == ONE - FMul(d, d) \div 2
        sd == d - RDiv(FMul(d, FMul(d, d)), 6)
    IN <<FMul(Cos720(m), cd) - FMul(Sin720(m), sd), FMul(Sin720(m), cd) + FMul(Cos720(m), sd)>>

(* ----------------------------- wave functions ------------------------------ *)
(* psi at half step h                                                         *)
Psi(E, V, psi, h, f) ==
    LET a == TLCEval([n \in 1..Len(E) |-> CMul(Cis(-E[n], h, f), VDot(V[n], psi))])
    IN TLCEval([i \in 1..Len(psi) |-> LET F(n) == CMul(V[n][i], a[n]) IN CSumTo(F, Len(E))])
Norm2(psi) == VDot(psi, psi)[1]

(* --------------------------- linear correlations ---------------------------- *)
(* matrix elements between eigenstates: <V_n| M |V_m>                         *)
InEig(V, M) == LET MV == TLCEval([m \in 1..Len(V) |-> MVec(M, V[m])]) IN
               TLCEval([n \in 1..Len(V) |-> TLCEval([m \in 1..Len(V) |-> VDot(V[n], MV[m])])])
MProd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A) |->
                  LET F(k) == CMul(A[i][k], B[k][j]) IN CSumTo(F, Len(A))])])
(* Tr R exp(-iHt)                                                              *)
CorrDos(E, Re, h, f) ==
    LET F(n) == CMul(Re[n][n], Cis(-E[n], h, f)) IN CSumTo(F, Len(E))
(* Tr R f(H) exp(iHt) A exp(-iHt) (1 - f(H)) B, with Re, Ae, Be between        *)
(* eigenstates; BR = B R                                                      *)
CorrAB(E, fd, Ae, BR, h, f) ==
    LET T(n) == LET F(m) == CScale(FMul(fd[n], ONE - fd[m]),
                                   CMul(Cis(E[n] - E[m], h, f), CMul(Ae[n][m], BR[m][n])))
                IN CSumTo(F, Len(E))
    IN CSumTo(T, Len(E))
FermiOf(E, mu, beta) == TLCEval([n \in 1..Len(E) |-> FFermi(FMul(E[n] - mu, beta))])
(* current along axis a: i H_ij (r_j - r_i), lengths in 1/48 nm                *)
Current(s, a) ==
    LET n == Len(s.eng)
        val == TLCEval([k \in DOMAIN s.hop |->
                  LET z == CTurn(<<s.hop[k][1], s.hop[k][2]>>, s.hop[k][3])
                  IN <<RDiv(-z[2] * k[2 + a], 48), RDiv(z[1] * k[2 + a], 48)>>])
        el(i, j) == LET D == {k \in DOMAIN s.hop : k[1] = i /\ k[2] = j}
                        Re(k) == val[k][1]
                        Im(k) == val[k][2]
                    IN <<SumOver(Re, D), SumOver(Im, D)>>
    IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> el(i-1, j-1)])])
(* density operator exp(i q.r) for q in 1/720 turns per 1/48 nm, over qd       *)
QTurn(p, q, qd) == Dot(p, q) \div qd
DiagM(d) == TLCEval([i \in 1..Len(d) |-> TLCEval([j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE CZero])])
Density(pos, q, qd, sg) == DiagM([i \in 1..Len(pos) |-> CTurn(<<1, 0>>, sg * QTurn(pos[i], q, qd))])

(* --------------------------- quasi-eigenstates ------------------------------ *)
(* amplitude 1 + 2 sum_t W(t) cos((en - E_n) t)                                *)
Hann(t, tot) == (ONE + Cos720((360 * t) \div tot)) \div 2
QeAmp(x, tot, f) == LET F(t) == 2 * FMul(Hann(t, tot), Cis(x, 2 * t, f)[1])
                    IN ONE + SumTo(F, tot)
(* unnormalised quasi-eigenstate, components over the eigenstates              *)
QeVec(E, ae, en, tot, f) == TLCEval([n \in 1..Len(E) |-> CScale(QeAmp(en - E[n], tot, f), ae[n])])
OnOrb(V, ce, i) == LET F(n) == CMul(V[n][i], ce[n]) IN CSumTo(F, Len(ce))

(* ------------------------- Chebyshev moments ------------------------------- *)
(* T_0(x), T_1(x), .. T_(n-1)(x)                                               *)
RECURSIVE ChebSeq(_, _, _)
ChebSeq(x, q, n) ==
    IF Len(q) >= n THEN q
    ELSE ChebSeq(x, Append(q, CASE Len(q) = 0 -> ONE [] Len(q) = 1 -> x
                                [] OTHER -> 2 * FMul(x, q[Len(q)]) - q[Len(q) - 1]), n)
(* damping factors; the first one is halved                                    *)
Jackson(k, n) == IF k = 0 THEN ONE \div 2
                 ELSE LET q == 360 \div n
                          c1 == FDiv(Cos720(q), Sin720(q))
                      IN RDiv((n - k) * Cos720(q * k) + FMul(c1, Sin720(q * k)), n)
(* g_i g_j Tr R J_x T_i J_b T_j; K = R J_x between eigenstates, P[a] the        *)
(* polynomials at the scaled energy of state a                                *)
HallMu(P, K, Jb, i, j, n) ==
    LET T(a) == LET F(b) == CScale(P[b][j + 1], CMul(K[b][a], Jb[a][b]))
                IN CScale(P[a][i + 1], CSumTo(F, Len(P)))
    IN CScale(FMul(Jackson(i, n), Jackson(j, n)), CSumTo(T, Len(P)))

(* --------------------- recursion method: local density --------------------- *)
Ldos(E, V, site, en, delta) ==
    LET F(n) == FMul(CAbs2(V[n][site + 1]), Lorentz(en, E[n], delta))
    IN SumTo(F, Len(E))
===============================================================================
