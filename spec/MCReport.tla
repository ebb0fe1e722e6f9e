------------------------------ MODULE MCReport ------------------------------
(* Design checks: real harmonics and radial functions are orthonormal (exact  *)
(* integrals of polynomials), the table of radial factors agrees with its     *)
(* definition, the atomic orbitals have the parity of l; a drawing with the   *)
(* conjugate terms does not depend on the stored orientation, and exchanging  *)
(* the axes of the view mirrors it.                                           *)
EXTENDS Report
CONSTANT Big
VARIABLE x

LM == {<<a, m>> \in (0..3) \X (-3..3) : Abs(m) <= a}
NL == {<<n, a>> \in (1..4) \X (0..3) : a < n}
Pts == {<<a, b, d>> : a \in {-900000, 0, 700000}, b \in {-400000, 1100000}, d \in {0, 1300000}}
Keys == {<<a, b, 0, i, j>> : a \in -1..1, b \in 0..1, i \in 0..1, j \in 0..1}
Init == \/ \E p \in LM, q \in LM : x = [t |-> "ang", p |-> p, q |-> q]
        \/ \E p \in NL : x = [t |-> "rad", p |-> p]
        \/ \E p \in NL, m \in -3..3, z \in 1..(IF Big THEN 3 ELSE 1), d \in Pts :
              Abs(m) <= p[2] /\ x = [t |-> "par", p |-> p, m |-> m, z |-> z, d |-> d]
        \/ \E k \in Keys, q \in (IF Big THEN Keys ELSE {<<0, 1, 0, 0, 1>>}), v \in Views :
              k # HConj(k) /\ q # HConj(q)
              /\ x = [t |-> "draw", k |-> k, q |-> q, v |-> v]
Next == UNCHANGED x

(* integral over the sphere of x^a y^b z^c, over 4 pi, times 11!! = 10395 *)
RECURSIVE DF(_)
DF(n) == IF n <= 1 THEN 1 ELSE n * DF(n - 2)
Sph(a, b, d) == IF (a % 2) + (b % 2) + (d % 2) > 0 THEN 0
                ELSE (DF(a - 1) * DF(b - 1) * DF(d - 1) * 10395) \div DF(a + b + d + 1)
AngInt(p, q) ==
    LET P == Harm(p[1], p[2]).p
        Q == Harm(q[1], q[2]).p
        F(i) == LET G(j) == P[i][1] * Q[j][1] * Sph(P[i][2] + Q[j][2], P[i][3] + Q[j][3],
                                                    P[i][4] + Q[j][4])
                IN SumTo(G, Len(Q))
    IN SumTo(F, Len(P))
(* integral of rho^(2l+2) L^2 e^-rho, exactly *)
RadInt(n, a) ==
    LET k == n - a - 1
        al == 2 * a + 1
        F(i) == LET G(j) == LagC(k, al, i - 1) * LagC(k, al, j - 1)
                            * (Fact(i + j - 2 + 2 * a + 2) \div (Fact(i - 1) * Fact(j - 1)))
                IN SumTo(G, k + 1)
    IN SumTo(F, k + 1)
PC == [lat |-> <<<<2, 1, 0>>, <<-1, 1, 3>>, <<0, 0, 2>>>>, org |-> <<1, 0, -1>>,
       orb |-> <<[p |-> <<0, 0, 12>>, e |-> 1], [p |-> <<20, 8, 0>>, e |-> 2]>>]
T(k) == <<k[1], k[2], k[3], k[4], k[5], 1, 2>>
Bag(ks) == Drawn([i \in 1..Len(ks) |-> PcLine(PC, T(ks[i]))], x.v, TRUE, 1)
Mirror(q) == [i \in 1..Len(q) |-> <<q[i][2], q[i][1], q[i][4], q[i][3]>>]
Swap(v) == CASE v = "ab" -> "ba" [] v = "ba" -> "ab" [] v = "bc" -> "cb" [] v = "cb" -> "bc"
             [] v = "ca" -> "ac" [] v = "ac" -> "ca"
Inv ==
  CASE x.t = "ang" ->
        LET h == Harm(x.p[1], x.p[2]) IN
        IF x.p = x.q THEN 4 * h.n * AngInt(x.p, x.p) = h.d * 10395 ELSE AngInt(x.p, x.q) = 0
    [] x.t = "rad" ->
        LET n == x.p[1]
            a == x.p[2]
            k == K8(n, a)
            \* (k 10^-8)^2 n^4 (n+l)! = 4 (n-l-1)!
            g == (25 * n * n * n * n * Fact(n + a)) \div Fact(n - a - 1)
        IN /\ RadInt(n, a) * Fact(n - a - 1) = 2 * n * Fact(n + a)
           /\ IF n = 1 THEN k = 200000000 ELSE Near(FMul(FMul(k, k), g), ONE, 60)
    [] x.t = "par" ->
        LET qn == <<x.z, x.p[1], x.p[2], x.m>>
            f == AtomPsi(qn, x.d)
            g == AtomPsi(qn, VNeg(x.d))
        IN Near(f, IF x.p[2] % 2 = 0 THEN g ELSE -g, 30)
    [] x.t = "draw" ->
        LET A == Bag(<<x.k, x.q>>)
            B == Bag(<<HConj(x.k), x.q>>)
        IN /\ SameBag(A, B)
           /\ SameBag(Mirror(A), Drawn(<<PcLine(PC, T(x.k)), PcLine(PC, T(x.q))>>,
                                       Swap(x.v), TRUE, 1))
           /\ SameBag(LatArrows(PC, Swap(x.v)), Mirror(LatArrows(PC, x.v)))
           /\ LET lo == <<-1, 0, 0>>
                  hi == <<2, 1, 1>>
              IN SameBag(UndirSeq(Mirror(Grid(PC, lo, hi, x.v))),
                         UndirSeq(Grid(PC, lo, hi, Swap(x.v))))
=============================================================================
