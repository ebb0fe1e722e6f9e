------------------------------- MODULE Response -------------------------------
(* Linear response from complete sets of eigenpairs (Lindhard function and    *)
(* Kubo-Greenwood formula) on a mesh of k-points.                             *)
EXTENDS Spectral

(* p: [beta, mu, delta, gs, ext] with beta, mu, delta in 10^-6                *)
Occ(E, p) == FFermi(FMul(E - p.mu, p.beta))

(* exp(i q.r_b), q = qn/qd fractional, r_b in 1/48 *)
QPhase(pc, qn, qd) == TLCEval([b \in 1..Len(pc.orb) |->
                          CTurn(<<1, 0>>, (15 * Dot(qn, pc.orb[b].p)) \div qd)])
QPhaseOk(pc, qn, qd) == \A b \in 1..Len(pc.orb) : (15 * Dot(qn, pc.orb[b].p)) % qd = 0

(* contribution of one k-point: A, B certificates at k and k+q *)
LindhardK(A, B, ph, w, p) ==
    LET n == Len(A.E)
        fa == TLCEval([j \in 1..n |-> Occ(A.E[j], p)])
        fb == TLCEval([j \in 1..n |-> Occ(B.E[j], p)])
        M(j, m) == LET F(b) == CConjMul(B.V[m][b], CMul(A.V[j][b], ph[b])) IN CAbs2(CSumTo(F, n))
        T(j, m) == CDiv(<<FMul(M(j, m), fa[j] - fb[m]), 0>>, <<A.E[j] - B.E[m] + w, p.delta>>)
        R(j) == LET F(m) == T(j, m) IN CSumTo(F, n)
    IN CSumTo(R, n)
CRDiv(u, n) == <<RDiv(u[1], n), RDiv(u[2], n)>>
(* vol: cell volume or area (whole number) *)
DynPol(As, Bs, ph, w, p, vol) ==
    LET nk == Len(As)
        F(k) == CRDiv(LindhardK(As[k], Bs[k], ph, w, p), nk)
        s == CSumTo(F, nk)
    IN CRDiv(<<p.gs * s[1], p.gs * s[2]>>, vol * p.ext)

(* velocity dH/dk_a of convention 1, in 10^-6 eV nm *)
Velocity(pc, a, kn, kd) ==
    LET n == Len(pc.orb)
        dr(k) == VMat(VAdd(VScale(48, HRn(k)), VSub(pc.orb[k[5]+1].p, pc.orb[k[4]+1].p)),
                      pc.lat)[a]
        val == TLCEval([k \in DOMAIN pc.hop |->
                   LET h == CTurn(pc.hop[k], PcTurn(pc, k, 1, kn, kd))
                       d == RDiv(dr(k) * ONE, 48)
                   IN <<-FMul(h[2], d), FMul(h[1], d)>>])
        el(i, j) == LET D == {k \in DOMAIN pc.hop : k[4] = i /\ k[5] = j}
                        Re(k) == val[k][1]
                        Im(k) == val[k][2]
                    IN <<SumOver(Re, D), SumOver(Im, D)>>
    IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> el(i - 1, j - 1)])])
Elem(u, M, v) == VDot(u, MVec(M, v))
Degen == 5
Ambiguous(A) == \E m, n \in 1..Len(A.E) :
                   LET d == Abs(A.E[m] - A.E[n]) IN d >= Degen /\ d < 3000
KuboK(A, Va, Vb, w, p) ==
    LET n == Len(A.E)
        f == TLCEval([j \in 1..n |-> Occ(A.E[j], p)])
        T(i, j) == LET d == A.E[i] - A.E[j] IN
                   IF Abs(d) < Degen THEN CZero
                   ELSE LET g == CMul(Elem(A.V[j], Va, A.V[i]), Elem(A.V[i], Vb, A.V[j]))
                        IN CDiv(CScale(FDiv(f[i] - f[j], d), g), <<d - w, -p.delta>>)
        R(i) == LET F(j) == T(i, j) IN CSumTo(F, n)
    IN CSumTo(R, n)
AcCond(As, Vas, Vbs, w, p, vol) ==
    LET nk == Len(As)
        F(k) == CRDiv(KuboK(As[k], Vas[k], Vbs[k], w, p), nk)
        s == CSumTo(F, nk)
    IN CRDiv(<<-(p.gs * s[2]), p.gs * s[1]>>, vol * p.ext)

EPS0 == 694462
(* Coulomb interaction for q = 2 pi sqrt(num)/den *)
Vq(dim, num, den, beps) ==
    LET e == FMul(EPS0, beps) IN
    IF dim = 2 THEN FDiv(FDiv(den * ONE, FSqrt(num * ONE)), e)
    ELSE FDiv(FDiv(FDivP(den * den, num), PI6), e)
===============================================================================
