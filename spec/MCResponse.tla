------------------------------ MODULE MCResponse ------------------------------
(* Design checks of the response formulas on two-orbital chains with known     *)
(* spectra on a mesh of four k-points: no response at q = 0, invariance under  *)
(* the phases of the eigenvectors and under q -> q + whole mesh steps of the   *)
(* bands, reality relation between (q, w) and (-q, -w), dissipation of the     *)
(* right sign, Hermiticity of the velocity, and the conductivity tensor's      *)
(* symmetry.                                                                  *)
EXTENDS Response
CONSTANT Big
VARIABLE x

Inst == {[t |-> t, u |-> u, p |-> p, q |-> q, w |-> w, beta |-> b] :
            t \in {3, 5, 8}, u \in {4, 12, 6}, p \in IF Big THEN {0, 12, 24} ELSE {0, 12},
            q \in 0..3, w \in IF Big THEN {0, 1500000, 3000000, 7000000} ELSE {0, 3000000},
            b \in {500000, 2000000}}
Squares == {n * n : n \in 1..25}
Nice(i) == /\ i.t * i.t + i.u * i.u \in Squares /\ i.t # i.u
Init == x \in {i \in Inst : Nice(i)}
Next == UNCHANGED x

Pc == [lat |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, org |-> Zero3,
       orb |-> <<[p |-> Zero3, e |-> 0], [p |-> <<x.p, 0, 0>>, e |-> 0]>>,
       hop |-> HPut(HPut(NoHop, <<0, 0, 0, 0, 1>>, <<x.t, 0>>), <<1, 0, 0, 0, 1>>, <<x.u, 0>>)]
R2 == 707107
Sol(k, conv) ==           \* k = 0..3 in quarters
    LET b == CPlus(<<x.t * ONE, 0>>, CTurn(<<x.u, 0>>, 180 * k))
        r == ISqrt((b[1] \div ONE) * (b[1] \div ONE) + (b[2] \div ONE) * (b[2] \div ONE))
        w == <<RDiv(b[1], r), RDiv(b[2], r)>>
        g == IF conv = 1 THEN CTurn(<<1, 0>>, -((15 * k * x.p) \div 4)) ELSE <<ONE, 0>>
    IN [E |-> <<-r * ONE, r * ONE>>,
        V |-> <<<<CScale(-R2, w), CScale(R2, g)>>, <<CScale(R2, w), CScale(R2, g)>>>>]
Mesh == [k \in 1..4 |-> Sol(k - 1, 2)]
ShiftQ(q) == [k \in 1..4 |-> Sol((k - 1 + q) % 4, 2)]
Rot1(s) == [E |-> s.E, V |-> <<[b \in 1..2 |-> CMul(CTurn(<<1, 0>>, 77), s.V[1][b])],
                               [b \in 1..2 |-> CMul(CTurn(<<1, 0>>, 500), s.V[2][b])]>>]
P == [beta |-> x.beta, mu |-> 500000, delta |-> 250000, gs |-> 2, ext |-> 1]
D(q, w) == DynPol(Mesh, ShiftQ(q % 4), QPhase(Pc, <<q, 0, 0>>, 4), w, P, 1)
InvCert == \A k \in 0..3 : \A conv \in {1, 2} :
              Certified(HamPc(Pc, conv, <<k, 0, 0>>, 4), Ident(2), Sol(k, conv).E,
                        Sol(k, conv).V, 60)
InvZero == CNear(D(0, x.w), CZero, 20)
InvGauge == CNear(D(x.q, x.w),
                  DynPol([k \in 1..4 |-> Rot1(Mesh[k])], ShiftQ(x.q),
                         QPhase(Pc, <<x.q, 0, 0>>, 4), x.w, P, 1), 60)
InvReal == CNear(D(x.q, x.w), CConj(D(-x.q, -x.w)), 60)
InvDiss == x.w > 0 => D(x.q, x.w)[2] <= 60
Cs == [k \in 1..4 |-> Sol(k - 1, 1)]
Vel == [k \in 1..4 |-> Velocity(Pc, 1, <<k - 1, 0, 0>>, 4)]
Vel2 == [k \in 1..4 |-> Velocity(Pc, 2, <<k - 1, 0, 0>>, 4)]
S(a, b, w) == AcCond(Cs, IF a = 1 THEN Vel ELSE Vel2, IF b = 1 THEN Vel ELSE Vel2, w, P, 1)
InvVel == \A k \in 1..4 : Hermitian(Vel[k], 3)
InvAc == /\ S(1, 1, x.w)[1] >= -60
         /\ CNear(S(1, 2, x.w), CZero, 5) /\ CNear(S(2, 2, x.w), CZero, 5)
         /\ CNear(S(1, 1, x.w), CConj(S(1, 1, -x.w)), 200)
Inv == InvCert /\ InvZero /\ InvGauge /\ InvReal /\ InvDiss /\ InvVel /\ InvAc
===============================================================================
