------------------------------ MODULE MCAnalysis ------------------------------
(* Design checks of the analysis formulas: windows, normalisation and peak of  *)
(* the density of states, the Hilbert transform on pure tones, behaviour of    *)
(* the conductivities at their end points, Hermiticity of the Kubo-Bastin      *)
(* kernel, the running integral and its last value.                            *)
EXTENDS Analysis
CONSTANT Big
VARIABLE x

Ts == IF Big THEN {2, 3, 4, 5, 6, 9, 10, 12} ELSE {2, 3, 5, 6}
Inst == {[T |-> t, f |-> f, j |-> j, m |-> m, w |-> w, sp |-> s] :
            t \in Ts, f \in {3, 9}, j \in 0..23, m \in 1..11,
            w \in {"hann", "exp", "ten", "one", "lin"}, s \in {1, 2}}
Init == x \in {i \in Inst : i.j < 2 * i.T /\ i.m + 1 < i.T /\ (~Big => i.m = 1)}
Next == UNCHANGED x

Conj2(z) == <<z[1], -z[2]>>
InvWin == /\ Near(Win(x.w, 0, x.T), ONE, 2)
          /\ \A i \in 1..x.T : Win(x.w, i, x.T) <= Win(x.w, i - 1, x.T)
          /\ \A i \in 0..x.T : Win(x.w, i, x.T) >= -2
Tone == [k \in 1..(x.T + 1) |-> Eit(x.T - x.j, k - 1, x.T)]     \* energy E_j
InvDos == LET d == DosAll(Tone, x.w, x.T, x.f, x.sp)
              F(k) == d[k]
          IN /\ Near(RDiv(x.f * SumTo(F, 2 * x.T), x.T), x.sp * ONE, 200)
             /\ \A k \in 1..(2 * x.T) : d[k] >= 0 /\ d[k] <= d[x.j + 1] + 5
(* cos m + cos (m+1) vanishes where the continuation has no value; its         *)
(* transform is sin m + sin (m+1)                                              *)
InvHilbert ==
    LET re == [i \in 1..x.T |-> Eit(x.m, i - 1, x.T)[1] + Eit(x.m + 1, i - 1, x.T)[1]]
    IN \A i \in 0..(x.T - 1) :
         Near(AcImag(re, x.T, i), Eit(x.m, i, x.T)[2] + Eit(x.m + 1, i, x.T)[2], 60)
Arb == [k \in 1..x.T |-> <<(((k * 7919 + x.j) % 2001) - 1000) * 1000, (((k * 104729) % 2001) - 1000) * 1000>>]
InvAc == LET Im == [k \in 1..x.T |-> Arb[k][2]] IN
         /\ AcReal(Im, x.w, x.T, x.f, 0, ONE, ONE, x.sp) = 0
         /\ \A i \in 0..(x.T - 1) :
              Near(AcReal([k \in 1..x.T |-> -Im[k]], x.w, x.T, x.f, i, ONE, ONE, x.sp),
                   -AcReal(Im, x.w, x.T, x.f, i, ONE, ONE, x.sp), 20)
InvDc == LET d(k) == DiffOf(Arb, x.w, x.T, x.f, x.j, k)
             t(k) == DcTerm(Arb, x.w, x.T, x.j, k)
             F(k) == t(k)
         IN /\ d(1) = 0
            /\ Near(DcOf(Arb, x.w, x.T, x.f, x.j, ONE, ONE, 1),
                    d(x.T) + RDiv(FMul(PI6, t(1) + t(x.T)), 2 * x.f), 20)
InvGam == \A i, k \in 0..3 : \A h \in {30, 72, 200} :
             CNear(Gam(i, k, h), Conj2(Gam(k, i, h)), 20)
InvVq == /\ VqOf(2, 0, ONE, ONE) = 0 /\ VqOf(3, 0, ONE, ONE) = 0
         /\ \A q \in {1, 4, 9} : Near(2 * VqOf(2, q, ONE, 2 * ONE), VqOf(2, q, ONE, ONE), 20)
Inv == InvWin /\ InvDos /\ InvHilbert /\ InvAc /\ InvDc /\ InvGam /\ InvVq
===============================================================================
