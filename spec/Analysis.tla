------------------------------- MODULE Analysis -------------------------------
(* From correlation functions to densities of states and response functions.  *)
(* The Hamiltonian is rescaled by f: energies run over (-f, f), the time step  *)
(* is pi / f (density of states, DC) or pi / (2 f) (AC, polarization), so that *)
(* all Fourier phases are whole multiples of pi / T, T dividing 180 or 360.    *)
EXTENDS Fx

Win(w, i, T) ==
    CASE w = "hann" -> (ONE + Cos720((360 * i) \div T)) \div 2
      [] w = "exp" -> FExpN(RDiv(2 * ONE * i * i, T * T))
      [] w = "ten" -> FExpN(FMul(4605170, RDiv(ONE * i * i, T * T)))
      [] w = "one" -> ONE
      [] w = "lin" -> RDiv(ONE * (2 * T - i), 2 * T)
Eit(j, k, T) == <<Cos720((360 * j * k) \div T), Sin720((360 * j * k) \div T)>>
EnOf(f, j, T) == RDiv(f * ONE * (j - T), T)            \* j = 0..2T-1
OmOf(f, i, T) == RDiv(2 * f * ONE * i, T)              \* i = 0..T-1

(* ---------------------------- density of states ---------------------------- *)
(* C[1..T+1] at times 0..T; |sum over both time directions|                    *)
DosRaw(C, w, T, j) ==
    LET F(k) == 2 * FMul(Win(w, k - 1, T), CMul(C[k + 1], Eit(j - T, k, T))[1])
        last == CScale(Win(w, T - 1, T), CMul(C[T + 1], Eit(j - T, T, T)))
        z == CPlus(CPlus(C[1], last), <<SumTo(F, T - 1), 0>>)
    IN FSqrt(CAbs2(z))
DosAll(C, w, T, f, spin) ==
    LET raw == TLCEval([j \in 1..(2 * T) |-> DosRaw(C, w, T, j - 1)])
        F(j) == raw[j]
        tot == f * RDiv(SumTo(F, 2 * T), T)
    IN TLCEval([j \in 1..(2 * T) |-> spin * FDiv(raw[j], tot)])

(* ----------------------------- AC conductivity ----------------------------- *)
AcReal(Im, w, T, f, i, beta, pref, spin) ==
    LET F(k) == FMul(Win(w, k + 1, T), FMul(Eit(i, k, T)[2], Im[k + 1]))
        G(k) == F(k - 1)
        om == OmOf(f, i, T)
        th == FExpN(FMul(beta, om)) - ONE
    IN IF i = 0 THEN 0
       ELSE FMul(pref, FDiv(FMul(th, RDiv(FMul(PI6, 2 * SumTo(G, T)), 2 * f)), om)) * spin
(* discrete Hilbert transform of the even continuation, N = 2 T points         *)
Cot(k, T) == FDiv(Cos720((180 * k) \div T), Sin720((180 * k) \div T))
AcImag(re, T, i) ==                                      \* re[1..T]
    LET sg(m) == IF m = 0 THEN 0 ELSE IF m >= T THEN re[m - T + 1] ELSE re[T - m + 1]
        F(m) == LET d == T + i - (m - 1) IN
                IF d % 2 = 0 THEN 0 ELSE FMul(sg(m - 1), Cot(d, T))
    IN RDiv(SumTo(F, 2 * T), T)

(* --------------------------- dynamical polarization ------------------------- *)
DpOf(C, w, T, f, i, pref, spin) ==
    LET F(k) == CScale(FMul(Win(w, k, T), C[k]), Eit(i, k - 1, T))
        s == CSumTo(F, T)
        g(y) == 2 * spin * FMul(pref, RDiv(FMul(PI6, y), 2 * f))
    IN <<g(s[1]), g(s[2])>>
EPS0A == 694462
(* coulomb/(eps0 eps_back) 2 pi / q or 4 pi / q^2; q2 = q^2 a whole number     *)
VqOf(dim, q2, coul, beps) ==
    LET fac == FDiv(coul, FMul(EPS0A, beps)) IN
    IF q2 = 0 THEN 0
    ELSE IF dim = 2 THEN FDiv(FMul(fac, 2 * PI6), FSqrt(q2 * ONE))
    ELSE RDiv(FMul(fac, 4 * PI6), q2)

(* ----------------------------- DC conductivity ------------------------------ *)
DcTerm(C, w, T, j, k) == FMul(Win(w, k, T), CMul(C[k], Eit(T - j, k - 1, T))[1])
DcOf(C, w, T, f, j, dos, pref, spin) ==
    LET F(k) == DcTerm(C, w, T, j, k)
    IN spin * FMul(pref, FMul(dos, RDiv(FMul(PI6, SumTo(F, T)), f)))
(* running trapezoidal integral                                               *)
DiffOf(C, w, T, f, j, k) ==
    LET F(n) == DcTerm(C, w, T, j, n) + DcTerm(C, w, T, j, n + 1)
    IN RDiv(FMul(PI6, SumTo(F, k - 1)), 2 * f)

(* ---------------------------- Hall conductivity ----------------------------- *)
(* Gamma_mn(theta), theta = h / 720 turns                                      *)
Gam(i, j, h) ==
    LET cs(n) == Cos720(n * h)
        sn(n) == Sin720(n * h)
        a == CScale(cs(i), CMul(<<cs(1), -j * sn(1)>>, <<cs(j), sn(j)>>))
        b == CScale(cs(j), CMul(<<cs(1), i * sn(1)>>, <<cs(i), -sn(i)>>))
    IN CPlus(a, b)
HallSum(mu, n, h) ==
    LET R(i) == LET F(j) == CMul(Gam(i - 1, j - 1, h), mu[i][j])[1] IN SumTo(F, n)
    IN SumTo(R, n)
HallOf(gm, ne, f, beta, ef, pref) ==              \* gm[k] = HallSum at k pi/ne
    LET F(k) == LET h == (360 * k) \div ne
                    sn == Sin720(h)
                    fd == FFermi(FMul(f * Cos720(h) - ef, beta))
                IN FDiv(FDiv(FDiv(FMul(gm[k], fd), sn), sn), sn)
    IN RDiv(FMul(pref, RDiv(FMul(PI6, SumTo(F, ne - 1)), ne * f)), 4 * f)
===============================================================================
