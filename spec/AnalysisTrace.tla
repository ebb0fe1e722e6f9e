----------------------------- MODULE AnalysisTrace -----------------------------
(* Histories of an Analyzer: changes of the parameters and of the rescaling    *)
(* factor interleaved with analyses of correlation functions.                  *)
EXTENDS Analysis, TraceCore

Norm2V(v) == Dot(v, v)
(* area and volume of the primitive cell, in 10^-6                             *)
Area(cf) == FSqrt(ONE * Norm2V(Cross(cf.lat[1], cf.lat[2]))) * cf.ext[1] * cf.ext[2]
Volume(cf) == Abs(Det3(cf.lat)) * ONE * cf.ext[1] * cf.ext[2] * cf.ext[3]
NExt(cf) == cf.ext[1] * cf.ext[2] * cf.ext[3]
NOrb(cf) == cf.norb * NExt(cf)
Size(cf) == IF cf.dim = 2 THEN Area(cf) ELSE Volume(cf)
PerCell(cf) == FDiv(NOrb(cf) * ONE, Size(cf))                    \* no "extended" factor
PerExt(cf) == RDiv(PerCell(cf), NExt(cf))
Spin(e) == IF e.spin THEN 2 ELSE 1
Tol(v) == 60 + Abs(v) \div 500
NearS(a, b, tol(_)) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol(b[i]))
Grid(a, b) == NearS(a, b, LAMBDA v : 2)
Bad(ok, name) == IF ok THEN {} ELSE {name}
K(x) == 1000 * x                                   \* inputs are given in 10^-3
CK(z) == <<K(z[1]), K(z[2])>>
Ens(S, e) == [j \in 1..(2 * e.T) |-> EnOf(S.f, j - 1, e.T)]
Oms(S, e) == [j \in 1..e.T |-> OmOf(S.f, j - 1, e.T)]

DosBad(S, e) ==
    LET C == TLCEval([k \in 1..(e.T + 1) |-> CK(e.corr[k])])
        d == DosAll(C, e.w, e.T, S.f, Spin(e))
    IN Bad(Grid(e.en, Ens(S, e)), "energy_grid") \cup Bad(NearS(e.res, d, Tol), "density_of_states")
AcBad(S, e) ==
    LET re(r) == TLCEval([i \in 1..e.T |-> AcReal([k \in 1..e.T |-> K(e.corr[r][k])], e.w, e.T,
                                                  S.f, i - 1, e.beta, PerExt(S.cf), Spin(e))])
        row(r) == LET x == re(r) IN
                  /\ Len(e.res[r]) = e.T
                  /\ \A i \in 1..e.T :
                       /\ Near(e.res[r][i][1], x[i], Tol(x[i]))
                       /\ LET y == AcImag(x, e.T, i - 1)
                              mx == MaxOf({Abs(x[k]) : k \in 1..e.T})
                          IN Near(e.res[r][i][2], y, 60 + mx \div 200)
    IN Bad(Grid(e.om, Oms(S, e)), "frequency_grid")
       \cup Bad(Len(e.res) = 4 /\ \A r \in 1..4 : row(r), "ac_conductivity")
DpBad(S, e) ==
    Bad(Grid(e.om, Oms(S, e)), "frequency_grid") \cup Bad(e.q = e.qs, "q_points")
    \cup Bad(Len(e.res) = Len(e.qs) /\ \A q \in 1..Len(e.qs) :
               /\ Len(e.res[q]) = e.T
               /\ \A i \in 1..e.T :
                    LET x == DpOf([k \in 1..e.T |-> K(e.corr[q][k])], e.w, e.T, S.f, i - 1,
                                  PerExt(S.cf), Spin(e))
                    IN CNear(e.res[q][i], x, 60 + (Abs(x[1]) + Abs(x[2])) \div 500),
             "dynamical_polarization")
EpsBad(S, e) ==
    Bad(Len(e.res) = Len(e.qs) /\ \A q \in 1..Len(e.qs) :
          LET v == VqOf(S.cf.dim, Norm2V(e.qs[q]), e.coul, e.beps) IN
          \A i \in 1..e.T :
             LET x == CMinus(<<ONE, 0>>, CScale(v, CK(e.dp[q][i])))
             IN CNear(e.res[q][i], x, 60 + (Abs(x[1]) + Abs(x[2])) \div 1000),
        "dielectric_function")
Eps0Bad(S, e) ==
    LET p == FDiv(4 * PI6, FMul(EPS0A, e.beps))
        x(r, i) == LET y == CScale(p, CK(e.ac[r][i]))
                   IN <<ONE - RDiv(y[2], e.omi[i]), RDiv(y[1], e.omi[i])>>
    IN Bad(Len(e.res) = 4 /\ \A r \in 1..4 : \A i \in 1..e.T :
             CNear(e.res[r][i], x(r, i), 60 + (Abs(x(r, i)[1]) + Abs(x(r, i)[2])) \div 1000),
           "dielectric_function_q0")
NE(e) == IF e.hi >= e.lo THEN e.hi - e.lo + 1 ELSE 0
DcC(e, r, j) == TLCEval([k \in 1..e.T |-> CK(e.corr[r][j][k])])
DcBad(S, e) ==
    LET C == TLCEval(<<<<ONE, 0>>>> \o [k \in 1..e.T |-> CK(e.dcorr[k])])
        d == DosAll(C, e.wd, e.T, S.f, Spin(e))
    IN Bad(Grid(e.en, [j \in 1..NE(e) |-> EnOf(S.f, e.lo + j - 1, e.T)]), "energy_grid")
       \cup Bad(Len(e.res) = 2 /\ \A r \in 1..2 : Len(e.res[r]) = NE(e) /\ \A j \in 1..NE(e) :
                  LET x == DcOf(DcC(e, r, j), e.w, e.T, S.f, e.lo + j - 1, d[e.lo + j],
                                PerCell(S.cf), Spin(e))
                  IN Near(e.res[r][j], x, 100 + Abs(x) \div 200), "dc_conductivity")
DiffBad(S, e) ==
    Bad(NearS(e.tm, [k \in 1..e.T |-> RDiv((k - 1) * PI6, S.f)], LAMBDA v : 2 + e.T), "time_grid")
    \cup Bad(Len(e.res) = 2 /\ \A r \in 1..2 : Len(e.res[r]) = NE(e) /\ \A j \in 1..NE(e) :
               /\ Len(e.res[r][j]) = e.T
               /\ \A k \in 1..e.T :
                    LET x == DiffOf(DcC(e, r, j), e.w, e.T, S.f, e.lo + j - 1, k)
                    IN Near(e.res[r][j][k], x, Tol(x)), "diffusion_coefficient")
HallBad(S, e) ==
    LET mu == TLCEval([i \in 1..e.ker |-> TLCEval([j \in 1..e.ker |-> CK(e.mu[i][j])])])
        gm == TLCEval([k \in 1..(e.ne - 1) |-> HallSum(mu, e.ker, (360 * k) \div e.ne)])
        p0 == FDiv(16 * PerCell(S.cf), PI6)
        p == Spin(e) * (IF e.unit = "h" THEN FMul(2 * PI6, p0) ELSE p0)
    IN Bad(e.en = e.ens, "energy_grid")
       \cup Bad(Len(e.res) = Len(e.ens) /\ \A i \in 1..Len(e.ens) :
                  LET x == HallOf(gm, e.ne, S.f, e.beta, e.ens[i], p)
                  IN Near(e.res[i], x, 60 + Abs(x) \div 300), "hall_conductivity")
WinBad(S, e) == Bad(\A i \in 1..Len(e.is) : Near(e.res[i], Win(e.w, e.is[i], e.T), 5), "window")

InitSt(case) == [cf |-> case.cfg, f |-> case.cfg.f]
ResOf(S, e) ==
    CASE e.op = "new" -> IF e.dim \in {2, 3} /\ e.known THEN "ok" ELSE "ValueError"
      [] e.op = "eps0" -> IF S.cf.dim = 3 THEN "ok" ELSE "ValueError"
      [] e.op = "hall" -> IF e.unit \in {"h", "h_bar"} THEN "ok" ELSE "ValueError"
      [] OTHER -> "ok"
Chk(S, e) ==
    LET res == ResOf(S, e)
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" THEN {}
             ELSE Bad(("kept" \in DOMAIN e) => e.kept, "input_modified") \cup
                  CASE e.op \in {"dos", "ldos"} -> DosBad(S, e)
                    [] e.op = "ac" -> AcBad(S, e)
                    [] e.op = "dp" -> DpBad(S, e)
                    [] e.op = "eps" -> EpsBad(S, e)
                    [] e.op = "eps0" -> Eps0Bad(S, e)
                    [] e.op = "dc" -> DcBad(S, e)
                    [] e.op = "diff" -> DiffBad(S, e)
                    [] e.op = "hall" -> HallBad(S, e)
                    [] e.op = "win" -> WinBad(S, e)
                    [] OTHER -> {}
    IN [st |-> IF e.op = "rescale" THEN [S EXCEPT !.f = e.f] ELSE S, bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
================================================================================
