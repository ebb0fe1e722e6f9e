----------------------------- MODULE ResponseTrace -----------------------------
(* Histories of a Lindhard object: edits of the cell interleaved with response *)
(* calculations and coordinate conversions.                                    *)
EXTENDS Response, TraceCore

CTol == 400
\* the mesh as numerators over 60
Mesh(n) == TLCEval([i \in 1..(n[1]*n[2]*n[3]) |->
               <<((i-1) \div (n[2]*n[3])) * (60 \div n[1]),
                 (((i-1) \div n[3]) % n[2]) * (60 \div n[2]),
                 ((i-1) % n[3]) * (60 \div n[3])>>])
CertsOk(pc, certs, ks, conv) ==
    /\ Len(certs) = Len(ks)
    /\ \A i \in 1..Len(ks) :
        LET H == HamPc(pc, conv, ks[i], 60) IN
        /\ PcTurnOk(pc, conv, ks[i], 60)
        /\ Complete1(H, certs[i].E)
        /\ Certified(H, Ident(Len(H)), certs[i].E, certs[i].V, CTol)
Vol(pc, dim) == IF dim = 2 THEN Abs(pc.lat[1][1]*pc.lat[2][2] - pc.lat[1][2]*pc.lat[2][1])
                ELSE Abs(Det3(pc.lat))
Omega(cf, i) == cf.emin + (i - 1) * cf.estep
ParOf(cf) == [beta |-> cf.beta, mu |-> cf.mu, delta |-> cf.delta, gs |-> cf.gs, ext |-> cf.ext]
RTol(v) == 300 + (Abs(v[1]) + Abs(v[2])) \div 500
OmBad(cf, e) == IF e.om # [i \in 1..(cf.ne + 1) |-> Omega(cf, i)] THEN {"energy_grid"} ELSE {}

DynBad(S, e) ==
    LET pc == S.w.pc[1]
        cf == S.cf
        ks == Mesh(cf.mesh)
        one(q) ==
          LET qn == e.qs[q]
              kq == [i \in 1..Len(ks) |-> VAdd(ks[i], qn)]
              ph == QPhase(pc, qn, 60)
          IN IF ~CertsOk(pc, e.cq[q], kq, 2) \/ ~QPhaseOk(pc, qn, 60)
             THEN {"hamiltonian_certificate"}
             ELSE IF Len(e.res[q]) # cf.ne + 1 THEN {"shape"}
             ELSE IF \E i \in 1..(cf.ne + 1) :
                       LET x == DynPol(e.ck, e.cq[q], ph, Omega(cf, i), ParOf(cf),
                                       Vol(pc, cf.dim))
                       IN ~CNear(e.res[q][i], x, RTol(x))
                  THEN {"dynamic_polarizability"} ELSE {}
    IN IF ~CertsOk(pc, e.ck, ks, 2) THEN {"hamiltonian_certificate"}
       ELSE IF Len(e.res) # Len(e.qs) THEN {"shape"}
       ELSE OmBad(cf, e) \cup UNION {one(q) : q \in 1..Len(e.qs)}

AxNo(x) == CASE x = "x" -> 1 [] x = "y" -> 2 [] x = "z" -> 3
AcBad(S, e) ==
    LET pc == S.w.pc[1]
        cf == S.cf
        ks == Mesh(cf.mesh)
        va == TLCEval([i \in 1..Len(ks) |-> Velocity(pc, AxNo(e.ca), ks[i], 60)])
        vb == TLCEval([i \in 1..Len(ks) |-> Velocity(pc, AxNo(e.cb), ks[i], 60)])
    IN IF ~CertsOk(pc, e.ck, ks, 1) THEN {"hamiltonian_certificate"}
       ELSE IF \E i \in 1..Len(ks) : Ambiguous(e.ck[i]) THEN {}
       ELSE OmBad(cf, e) \cup
            (IF Len(e.res) # cf.ne + 1 THEN {"shape"}
             ELSE IF \E i \in 1..(cf.ne + 1) :
                       LET x == AcCond(e.ck, va, vb, Omega(cf, i), ParOf(cf), Vol(pc, cf.dim))
                       IN ~CNear(e.res[i], x, RTol(x))
                  THEN {"ac_conductivity"} ELSE {})

EpsBad(S, e) ==
    LET L == S.w.pc[1].lat
        A == <<Cross(L[2], L[3]), Cross(L[3], L[1]), Cross(L[1], L[2])>>
        num(q) == LET v == VMat(q, A) IN Dot(v, v)
        den == e.qd * Abs(Det3(L))
        x(q, i) == LET v == Vq(S.cf.dim, num(e.qs[q]), den, S.cf.beps)
                   IN CMinus(<<ONE, 0>>, CScale(v, e.dp[q][i]))
    IN IF Len(e.res) # Len(e.qs) THEN {"shape"}
       ELSE IF \E q \in 1..Len(e.qs) : \E i \in 1..Len(e.dp[q]) :
                 ~CNear(e.res[q][i], x(q, i), RTol(x(q, i)))
            THEN {"dielectric_function"} ELSE {}
Eps0Bad(S, e) ==
    LET f == FDiv(4 * PI6, FMul(EPS0, S.cf.beps))
        x(i) == LET s == CRDiv(CScale(f, e.dp[i]), e.omi[i])
                IN <<ONE - s[2], s[1]>>
    IN IF \E i \in 1..Len(e.dp) : ~CNear(e.res[i], x(i), RTol(x(i)))
       THEN {"dielectric_function_q0"} ELSE {}

Wrap(x, n) == x % n
GeoBad(S, e) ==
    LET n == S.cf.mesh
        L == S.w.pc[1].lat
        D == Abs(Det3(L))
        A == <<Cross(L[2], L[3]), Cross(L[3], L[1]), Cross(L[1], L[2])>>
        sg == IF Det3(L) > 0 THEN 1 ELSE -1
        all(F(_)) == [i \in 1..Len(e.pts) |-> F(e.pts[i])]
        wf(p) == [d \in 1..3 |-> p[d] % 64]
        wg(p) == [d \in 1..3 |-> p[d] % n[d]]
        gf(p) == [d \in 1..3 |-> p[d] * (60 \div n[d])]
        \* Cartesian times 60 det / 2 pi
        gc(p) == VScale(sg, VMat(gf(p), A))
    IN (IF e.wfrac # all(wf) THEN {"wrap_frac"} ELSE {})
       \cup (IF e.wgrid # all(wg) THEN {"wrap_grid"} ELSE {})
       \cup (IF e.gfrac # all(gf) THEN {"grid2frac"} ELSE {})
       \cup (IF e.gcart # all(gc) THEN {"grid2cart"} ELSE {})
       \cup (IF e.back # all(gf) THEN {"cart2frac"} ELSE {})

Edit(S, e) ==
    LET pc == S.w.pc[1] IN
    CASE e.op = "addorb" -> [S EXCEPT !.w.pc[1].orb = Append(@, [p |-> e.p, e |-> e.e])]
      [] e.op = "addhop" -> [S EXCEPT !.w.pc[1].hop =
                               HPut(@, HKey(e.t, e.t[4], e.t[5]), <<e.t[6], e.t[7]>>)]
      [] e.op = "seteng" -> [S EXCEPT !.w.pc[1].orb[e.i + 1].e = e.e]
      [] e.op = "remorb" -> [S EXCEPT !.w.pc[1] = DropOrbs(pc, {e.i})]
      [] OTHER -> S
InitSt(case) == [w |-> MkModel(case.cfg), cf |-> case.cfg.lind]
ResOf(S, e) ==
    CASE e.op = "new" -> IF \/ Len(e.mesh) # 3 \/ e.dim \notin {2, 3}
                            \/ (e.dim = 2 /\ e.mesh[3] # 1)
                         THEN "ValueError" ELSE "ok"
      [] e.op = "ac" -> IF {e.ca, e.cb} \subseteq {"x", "y", "z"} THEN "ok" ELSE "ValueError"
      [] e.op = "eps0" -> IF S.cf.dim = 3 THEN "ok" ELSE "ValueError"
      [] OTHER -> "ok"
Chk(S, e) ==
    LET res == ResOf(S, e)
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" THEN {}
             ELSE CASE e.op = "dyn" -> DynBad(S, e)
                    [] e.op = "ac" -> AcBad(S, e)
                    [] e.op = "eps" -> EpsBad(S, e)
                    [] e.op = "eps0" -> Eps0Bad(S, e)
                    [] e.op = "geo" -> GeoBad(S, e)
                    [] OTHER -> {}
    IN [st |-> IF res = "ok" THEN Edit(S, e) ELSE S, bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
===============================================================================
