------------------------------- MODULE TbpmTrace -------------------------------
(* Histories of a sample and a Solver on it: rescaling, magnetic field and     *)
(* reset of the sample interleaved with propagations.                         *)
EXTENDS Tbpm, TraceCore

CTol == 800
H(S) == SMat(S.s)
CertBad(S, e) == IF Complete1(H(S), e.c.E) /\ Certified(H(S), Ident(e.n), e.c.E, e.c.V, CTol)
                 THEN {} ELSE {"hamiltonian_certificate"}
Trace(M) == LET F(i) == M[i][i] IN CSumTo(F, Len(M))
HermC(M, tol) == \A i \in 1..Len(M), j \in 1..Len(M) :
                    j >= i => CNear(M[i][j], <<M[j][i][1], -M[j][i][2]>>, tol)
StateBad(e) ==
    IF /\ e.r.res <= 20 /\ HermC(e.r.rho, 60)
       /\ CNear(Trace(e.r.rho), <<ONE, 0>>, 60)
       /\ (e.m = 1 => Near(e.r.top, ONE, 100))
    THEN {} ELSE {"initial_state"}
RefBad(e) == IF e.file = "same" THEN {} ELSE {"saved_file"}
Tol(v) == 150 + (Abs(v[1]) + Abs(v[2])) \div 1000
Bad(ok, name) == IF ok THEN {} ELSE {name}
Re(e) == InEig(e.c.V, e.r.rho)
Amp(e, psi) == TLCEval([k \in 1..Len(e.c.E) |-> VDot(e.c.V[k], psi)])

RECURSIVE SortSet(_)
SortSet(D) == IF D = {} THEN <<>>
              ELSE LET m == CHOOSE x \in D : \A y \in D : x <= y
                   IN <<m>> \o SortSet(D \ {m})
PsiBad(S, e) ==
    LET tl == SortSet(Elems(e.tl))
        F(i) == e.psi[i][1] * e.psi[i][1] + e.psi[i][2] * e.psi[i][2]
        nn == FSqrt(ONE * SumTo(F, Len(e.psi)))
        p0 == [i \in 1..Len(e.psi) |-> <<FDiv(ONE * e.psi[i][1], nn), FDiv(ONE * e.psi[i][2], nn)>>]
    IN Bad(e.kept, "input_modified") \cup
       IF Len(e.res) # Len(tl) THEN {"logged_times"}
       ELSE Bad(\A k \in 1..Len(tl) :
                  VecNear(e.res[k],
                          IF "h6" \in DOMAIN e       \* any real time scale
                          THEN Psi([m \in 1..Len(e.c.E) |-> FMul(e.c.E[m], e.h6)], e.c.V, p0, tl[k], S.s.f)
                          ELSE Psi(e.c.E, e.c.V, p0, tl[k] * e.h, S.s.f), 150),
                "wave_function")
DosBad(S, e) ==
    LET R == Re(e) IN
    Bad(Len(e.res) = e.T + 1 /\ \A t \in 0..e.T :
          CNear(e.res[t + 1], CorrDos(e.c.E, R, 2 * t, S.s.f), 150), "dos_correlation")
LdosBad(S, e) ==
    LET O == Elems(e.sites)
        M == TLCEval([i \in 1..e.n |-> TLCEval([j \in 1..e.n |->
                IF (i - 1) \in O /\ (j - 1) \in O THEN e.r.rho[i][j] ELSE CZero])])
        w == Trace(M)[1]
        one == Cardinality(O) = 1
        Q == TLCEval(IF one THEN [i \in 1..e.n |-> TLCEval([j \in 1..e.n |->
                             IF i = j /\ (i - 1) \in O THEN <<ONE, 0>> ELSE CZero])]
             ELSE [i \in 1..e.n |-> TLCEval([j \in 1..e.n |->
                     <<FDiv(M[i][j][1], w), FDiv(M[i][j][2], w)>>])])
        R == InEig(e.c.V, Q)
    IN IF ~one /\ (e.m > 1 \/ w < 50000) THEN {}
       ELSE Bad(Len(e.res) = e.T + 1 /\ \A t \in 0..e.T :
                  CNear(e.res[t + 1], CorrDos(e.c.E, R, 2 * t, S.s.f), 500),
                "ldos_correlation")
AcBad(S, e) ==
    LET J == TLCEval([a \in 1..2 |-> InEig(e.c.V, Current(S.s, a))])
        R == Re(e)
        JR == TLCEval([a \in 1..2 |-> MProd(J[a], R)])
        fd == FermiOf(e.c.E, e.mu, e.beta)
        row(k) == CASE k = 1 -> <<1, 1>> [] k = 2 -> <<2, 1>> [] k = 3 -> <<1, 2>>
                    [] k = 4 -> <<2, 2>>
    IN Bad(Len(e.res) = 4 /\ \A k \in 1..4 : Len(e.res[k]) = e.T /\ \A t \in 1..(e.T - 1) :
             LET x == CorrAB(e.c.E, fd, J[row(k)[1]], JR[row(k)[2]], t, S.s.f)
             IN CNear(e.res[k][t + 1], x, Tol(x)), "current_correlation")
DynBad(S, e) ==
    LET R == Re(e)
        fd == FermiOf(e.c.E, e.mu, e.beta)
        one(q) == LET A == InEig(e.c.V, Density(S.s.pos, q, e.qd, 1))
                      B == InEig(e.c.V, Density(S.s.pos, q, e.qd, -1))
                      BR == MProd(B, R)
                  IN TLCEval([t \in 0..(e.T - 1) |-> CorrAB(e.c.E, fd, A, BR, t, S.s.f)[2]])
    IN Bad(Len(e.res) = Len(e.qs) /\ \A q \in 1..Len(e.qs) :
             LET x == one(e.qs[q]) IN
             Len(e.res[q]) = e.T /\ \A t \in 0..(e.T - 1) : Near(e.res[q][t + 1], x[t], 300),
           "density_correlation")
QeBad(S, e) ==
    LET a == Amp(e, e.r.psi)
        one(k) == LET qe == QeVec(e.c.E, a, e.ens[k], e.T, S.s.f)
                      n2 == VDot(qe, qe)[1]
                  IN \/ n2 < 100000
                     \/ \A i \in 1..e.n :
                          Near(e.res[k][i], FDiv(CAbs2(OnOrb(e.c.V, qe, i)), n2), 1000)
    IN IF e.m > 1 THEN Bad(\A k \in 1..Len(e.ens) : Near(SumTo(LAMBDA i : e.res[k][i], e.n), ONE, 60),
                           "quasi_eigenstate_norm")
       ELSE Bad(Len(e.res) = Len(e.ens) /\ \A k \in 1..Len(e.ens) : one(k), "quasi_eigenstate")
DcBad(S, e) ==
    LET E == e.c.E
        a == Amp(e, e.r.psi)
        J == TLCEval([x \in 1..2 |-> InEig(e.c.V, Current(S.s, x))])
        ne == IF e.hi >= e.lo THEN e.hi - e.lo + 1 ELSE 0
        en(i) == LET k == e.lo + i - 1 IN RDiv(S.s.f * ONE * (k - e.T), e.T)
        R == Re(e)
        one(x, i) ==
          LET qe == QeVec(E, a, en(i), e.T, S.s.f)
              w == VDot(a, qe)
              aw == FSqrt(CAbs2(w))
              jq == MVec(J[x], qe)
              j0 == MVec(J[x], a)
          IN \/ aw < 100000
             \/ \A t \in 0..(e.T - 1) :
                  LET F(n) == CMul(CConjMul(j0[n], jq[n]), Cis(E[n], 2 * t, S.s.f))
                      z == CSumTo(F, Len(E))
                      y == <<FDiv(z[1], aw), FDiv(z[2], aw)>>
                  IN CNear(e.res[x][i][t + 1], y, 1500 + (Abs(y[1]) + Abs(y[2])) \div 300)
    IN Bad(e.shape = <<2, 2 * e.T, e.T>> /\ e.rest, "dc_shape")
       \cup Bad(e.dfile = "same", "saved_file")
       \cup Bad(Len(e.dos) = e.T /\ \A t \in 1..e.T :
                  CNear(e.dos[t], CorrDos(E, R, 2 * t, S.s.f), 150), "dos_correlation")
       \cup (IF e.m > 1 THEN {}
             ELSE Bad(\A x \in 1..2 : \A i \in 1..ne : one(x, i), "dc_correlation"))
HallBad(S, e) ==
    LET V == e.c.V
        K == MProd(Re(e), InEig(V, Current(S.s, 1)))
        Jb == InEig(V, Current(S.s, e.dir))
        P == TLCEval([k \in 1..e.n |-> ChebSeq(RDiv(e.c.E[k], S.s.f), <<>>, e.ker)])
    IN Bad(Len(e.res) = e.ker /\ \A i \in 1..e.ker : Len(e.res[i]) = e.ker /\ \A j \in 1..e.ker :
             LET x == HallMu(P, K, Jb, i - 1, j - 1, e.ker)
             IN CNear(e.res[i][j], x, Tol(x) + 150), "hall_moments")
HayBad(S, e) ==
    Bad(e.en = [i \in 1..(2 * e.T + 1) |-> RDiv(S.s.f * ONE * (i - 1 - e.T), e.T)], "energy_grid")
    \cup Bad(Len(e.res) = 2 * e.T + 1 /\ \A i \in 1..Len(e.res) :
               LET x == Ldos(e.c.E, e.c.V, e.site, e.en[i], e.delta)
               IN Near(e.res[i], x, 300 + x \div 200), "ldos_recursion")

InitSt(case) == [s |-> NewSample(MkModel(case.cfg))]
ResOf(S, e) ==
    CASE e.op = "psi" -> IF \E i \in 1..Len(e.tl) : e.tl[i] \notin 0..e.T THEN "ValueError"
                         ELSE IF "bmax" \in DOMAIN e THEN "ValueError" ELSE "ok"
      [] e.op \in {"dos", "ldos", "ac", "dyn", "dc", "qe"} ->
            IF "bmax" \in DOMAIN e THEN "ValueError" ELSE "ok"
      [] e.op = "param" -> IF e.known THEN "ok" ELSE "ValueError"
      [] OTHER -> "ok"
Edit(S, e) ==
    CASE e.op = "rescale" -> [S EXCEPT !.s = Rescaled(@, e.f)]
      [] e.op = "mag" -> [S EXCEPT !.s = Magnetic(@, e.b, e.g)]
      [] e.op = "reset" -> [S EXCEPT !.s = ResetSample(@)]
      [] OTHER -> S
Chk(S, e) ==
    LET res == ResOf(S, e)
        calc == e.op \in {"psi", "dos", "ldos", "ac", "dyn", "dc", "qe", "hall", "hay"}
        pre == IF e.out = "ok" /\ calc
               THEN CertBad(S, e) \cup (IF e.op \in {"psi", "hay"} THEN {} ELSE StateBad(e))
               ELSE {}
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" THEN {}
             ELSE IF pre # {} THEN pre
             ELSE (IF calc THEN RefBad(e) ELSE {}) \cup
                  CASE e.op = "psi" -> PsiBad(S, e)
                    [] e.op = "dos" -> DosBad(S, e)
                    [] e.op = "ldos" -> LdosBad(S, e)
                    [] e.op = "ac" -> AcBad(S, e)
                    [] e.op = "dyn" -> DynBad(S, e)
                    [] e.op = "qe" -> QeBad(S, e)
                    [] e.op = "dc" -> DcBad(S, e)
                    [] e.op = "hall" -> HallBad(S, e)
                    [] e.op = "hay" -> HayBad(S, e)
                    [] e.op = "cfg" -> Bad(e.same, "config_round_trip")
                    [] OTHER -> {}
    IN [st |-> IF res = "ok" THEN Edit(S, e) ELSE S, bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
================================================================================
