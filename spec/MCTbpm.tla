-------------------------------- MODULE MCTbpm --------------------------------
(* Design checks of the propagation formulas on two-orbital systems with known *)
(* spectra: evolution is a one-parameter unitary group, correlations obey      *)
(* their sum and reality rules, the current is i[H, r], the quasi-eigenstate   *)
(* filter has the right height and zeros, the Chebyshev polynomials and the    *)
(* Jackson damping factors have their defining properties, and the local       *)
(* densities of states add up.                                                *)
EXTENDS Tbpm
CONSTANT Big
VARIABLE x

Fs == IF Big THEN {9, 18} ELSE {18}
Inst == {[en |-> en, u |-> u, ph |-> p, f |-> f, h |-> h, k |-> k, T |-> t] :
            en \in {0, 3, 4}, u \in {3, 4, 5}, p \in IF Big THEN {0, 500, 613} ELSE {0, 500},
            f \in Fs, h \in IF Big THEN 0..5 ELSE {0, 1, 5}, k \in IF Big THEN {1, 3, 4} ELSE {3},
            t \in IF Big THEN {3, 5, 8} ELSE {4}}
Squares == {n * n : n \in 1..8}
Init == x \in {i \in Inst : i.en * i.en + i.u * i.u \in Squares}
Next == UNCHANGED x

Rt == ISqrt(x.en * x.en + x.u * x.u)
Smp == LET k == <<0, 1, 24, -12, 0>> IN
       [hop |-> (k :> <<x.u, 0, x.ph>>) @@ (SConj(k) :> <<x.u, 0, 720 - x.ph>>),
        eng |-> <<x.en, -x.en>>, pos |-> <<<<0, 0, 0>>, <<24, -12, 0>>>>, f |-> x.f]
HM == SMat(Smp)
Ph == CTurn(<<1, 0>>, x.ph)
(* eigenvectors (cos, sin e^-i ph) of [[en, u e^iph], [u e^-iph, -en]]        *)
Cc == FSqrt(FDiv((Rt + x.en) * ONE, 2 * Rt * ONE))
Ss == FSqrt(FDiv((Rt - x.en) * ONE, 2 * Rt * ONE))
E == <<-Rt * ONE, Rt * ONE>>
V == <<<<CScale(-Ss, Ph), <<Cc, 0>>>>, <<CScale(Cc, Ph), <<Ss, 0>>>>>>
Mixed == <<<<<<ONE \div 2, 0>>, CZero>>, <<CZero, <<ONE \div 2, 0>>>>>>
Re == InEig(V, Mixed)
P0 == <<<<600000, 0>>, <<0, 800000>>>>
InvCert == Certified(HM, Ident(2), E, V, 60)
InvCis == /\ CNear(Cis(E[2], x.h + x.k, x.f), CMul(Cis(E[2], x.h, x.f), Cis(E[2], x.k, x.f)), 12)
          /\ Near(CAbs2(Cis(E[1] \div 7, x.h, x.f)), ONE, 12)
          /\ CNear(Cis(2 * x.f * ONE, x.h, x.f), IF x.h % 2 = 0 THEN <<ONE, 0>> ELSE <<-ONE, 0>>, 5)
InvPsi == LET p == Psi(E, V, P0, x.h, x.f) IN
          /\ Near(Norm2(p), ONE, 30)
          /\ VecNear(Psi(E, V, p, x.k, x.f), Psi(E, V, P0, x.h + x.k, x.f), 40)
          /\ VecNear(Psi(E, V, p, -x.h, x.f), P0, 40)
          /\ (x.h = 0 => VecNear(p, P0, 20))
InvDos == LET z == CorrDos(E, Re, x.h, x.f) IN
          /\ (x.h = 0 => CNear(z, <<ONE, 0>>, 12))
          /\ CAbs2(z) <= ONE + 30
          /\ CNear(CorrDos(E, Re, -x.h, x.f), CConj(z), 20)
Cur(a) == InEig(V, Current(Smp, a))
InvCur == \A a \in 1..2 :
            LET J == Current(Smp, a) IN
            /\ Hermitian(J, 3)
            /\ \A i, j \in 1..2 :       \* i [H, r] = i H_ij (r_j - r_i)
                 CNear(J[i][j], LET d == Smp.pos[j][a] - Smp.pos[i][a]
                                IN <<RDiv(-HM[i][j][2] * d, 48), RDiv(HM[i][j][1] * d, 48)>>, 3)
InvAB == LET fd == FermiOf(E, 500000, 1000000)
             z(h) == CorrAB(E, fd, Cur(1), MProd(Cur(1), Re), h, x.f)
         IN /\ z(0)[1] >= -20 /\ Abs(z(0)[2]) <= 30
            /\ CNear(z(-x.h), CConj(z(x.h)), 60)
            /\ z(x.h)[1] <= z(0)[1] + 60
            /\ CNear(CorrAB(E, fd, Cur(2), MProd(Cur(1), Re), x.h, x.f),
                     <<-RDiv(z(x.h)[1], 2), -RDiv(z(x.h)[2], 2)>>, 60)
InvQe == /\ Near(QeAmp(0, x.T, x.f), x.T * ONE, 40)
         /\ \A j \in 2..(2 * x.T - 2) : (x.f * j) % x.T = 0 =>
               Near(QeAmp((x.f * j * ONE) \div x.T, x.T, x.f), 0, 60)
InvCheb == \A y \in {-900000, -250000, 0, 333333, 1000000} :
             LET c == ChebSeq(y, <<>>, 9) IN
             \A m \in 0..4 : \A n \in 0..m :
                Near(2 * FMul(c[m+1], c[n+1]), c[m+n+1] + c[m-n+1], 150)
InvJack == \A n \in {3, 4, 5, 8, 12} :
             /\ Jackson(0, n) = ONE \div 2
             /\ \A k \in 1..(n-1) : Jackson(k, n) >= -5 /\ Jackson(k, n) <= ONE
             /\ \A k \in 2..(n-1) : Jackson(k, n) < Jackson(k - 1, n)
InvLdos == \A en \in {-4000000, 0, 1000000} :
             Near(Ldos(E, V, 0, en, 500000) + Ldos(E, V, 1, en, 500000),
                  Lorentz(en, E[1], 500000) + Lorentz(en, E[2], 500000), 30)
Inv == InvCert /\ InvCis /\ InvPsi /\ InvDos /\ InvCur /\ InvAB /\ InvQe /\ InvCheb
       /\ InvJack /\ InvLdos
===============================================================================
