------------------------------ MODULE MCSpectral ------------------------------
(* Design checks of the certificate approach: two-orbital chains with whole   *)
(* number gaps. The textbook solution is certified in both conventions, a     *)
(* wrong energy or a non-orthogonal vector is rejected, projections are       *)
(* complete, the density of states is symmetric and additive; and the         *)
(* fixed-point functions obey their functional equations.                     *)
EXTENDS Spectral
CONSTANT Big
VARIABLE x

Small == {<<a, b>> : a \in -2..2, b \in -1..1}
Inst == {[t |-> t, u |-> u, d |-> d, p |-> p, k |-> k] :
            t \in {<<3, 0>>, <<5, 0>>, <<0, -8>>, <<3, 4>>, <<2, 0>>, <<0, 0>>},
            u \in {<<4, 0>>, <<12, 0>>, <<0, 6>>, <<-4, 3>>, <<-3, 0>>},
            d \in {-1, 2},
            p \in IF Big THEN {0, 12, 20, 52} ELSE {0, 20},
            k \in IF Big THEN {0, 15, 30, 45} ELSE {0, 15, 30}}      \* in 1/60
Pc(i) == [lat |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, org |-> Zero3,
          orb |-> <<[p |-> Zero3, e |-> i.d], [p |-> <<i.p, 0, 0>>, e |-> i.d]>>,
          hop |-> HPut(HPut(NoHop, <<0, 0, 0, 0, 1>>, i.t), <<1, 0, 0, 0, 1>>, i.u)]
B(i) == CPlus(CTurn(i.t, 0), CTurn(i.u, 12 * i.k))
Squares == {n * n : n \in 1..25}
Abs2i(i) == LET b == B(i) IN (b[1] \div ONE) * (b[1] \div ONE) + (b[2] \div ONE) * (b[2] \div ONE)
Nice(i) == /\ \A q \in {1, 2} : B(i)[q] % ONE = 0
           /\ Abs2i(i) \in Squares
Init == x \in {i \in Inst : Nice(i)}
Next == UNCHANGED x

R2 == 707107
Sol(i, conv) ==
    LET r == ISqrt(Abs2i(i))
        b == B(i)
        w == <<RDiv(b[1], r), RDiv(b[2], r)>>
        \* convention 1: second component times exp(-i k p)
        g == IF conv = 1 THEN CTurn(<<1, 0>>, -((15 * i.k * i.p) \div 60)) ELSE <<ONE, 0>>
    IN [E |-> <<(i.d - r) * ONE, (i.d + r) * ONE>>,
        V |-> <<<<CScale(-R2, w), CScale(R2, g)>>, <<CScale(R2, w), CScale(R2, g)>>>>]
H(i, conv) == HamPc(Pc(i), conv, <<i.k, 0, 0>>, 60)
InvCert == \A conv \in {1, 2} :
    LET s == Sol(x, conv) IN
    /\ PcTurnOk(Pc(x), conv, <<x.k, 0, 0>>, 60)
    /\ Hermitian(H(x, conv), 2)
    /\ Certified(H(x, conv), Ident(2), s.E, s.V, 60)
    /\ Ascending(s.E, 0)
    /\ ~Certified(H(x, conv), Ident(2), <<s.E[1], s.E[2] + 1000>>, s.V, 60)
    /\ ~Certified(H(x, conv), Ident(2), <<s.E[1], s.E[1]>>, <<s.V[1], s.V[1]>>, 60)
    /\ \A n \in 1..2 : Near(Weight(s.V[n], <<0>>) + Weight(s.V[n], <<1>>), ONE, 5)
InvDos == LET s == Sol(x, 2)
              W == <<<<ONE, ONE>>>>
              D(y, bs) == Dos(<<s.E>>, W, x.d * ONE + y, 500000, bs, 2)
          IN \A bs \in {"Gaussian", "Lorentzian"} : \A y \in {0, 1500000, 4000000} :
                Near(D(y, bs), D(-y, bs), 5)
InvFx == \A a \in {0, 3, 12345, 999999, 2500000, 7654321} :
         \A b \in {1, 777, 50000, 1000000, 3141593} :
            /\ Near(FMul(FExpN(a), FExpN(b)), FExpN(a + b), 4)
            /\ Near(FFermi(a) + FFermi(-a), ONE, 2)
            /\ Near(FMul(-a, b), -FMul(a, b), 2)
            /\ b > 40000 => Near(FMul(FDiv(a, b), b), a, 2 + b \div 1000000)
            /\ Near(FMul(FSqrt(a), FSqrt(a)), a, 8)
            /\ CNear(CMul(CDiv(<<a, -b>>, <<b + ONE, a>>), <<b + ONE, a>>), <<a, -b>>, 20)
Inv == InvCert /\ InvDos /\ InvFx
===============================================================================
