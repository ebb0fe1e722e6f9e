----------------------------- MODULE SpectralTrace -----------------------------
(* Histories of a solver object: edits of the model interleaved with           *)
(* calculations, each of which must describe the model as it is at that time. *)
EXTENDS Spectral, TraceCore

Tol == 400
Lat0(S, who) == IF who = "sp" THEN Sc0Lat(S.s) ELSE S.w.pc[1].lat
HOf(S, e, kn) == IF e.who = "sp" THEN SMat(Bloch(S.s, kn, e.kd))
                 ELSE HamPc(S.w.pc[1], e.conv, kn, e.kd)
SOf(S, e, kn, n) == IF e.who = "ov" THEN HamPc(S.ov, e.conv, kn, e.kd) ELSE Ident(n)
KOk(S, e) == \A i \in 1..Len(e.ks) :
                IF e.who = "sp" THEN KTurnOk(S.s, e.ks[i], e.kd)
                ELSE /\ PcTurnOk(S.w.pc[1], 1, e.ks[i], e.kd)
                     /\ PcTurnOk(S.w.pc[1], 2, e.ks[i], e.kd)
NOrb(S, e) == IF e.who = "sp" THEN Len(S.s.eng) ELSE Len(S.w.pc[1].orb)
CertOk(S, e) ==
    /\ Len(e.cert) = Len(e.ks)
    /\ \A i \in 1..Len(e.ks) :
        LET H == HOf(S, e, e.ks[i]) IN
        /\ Complete1(H, e.cert[i].E)
        /\ Certified(H, SOf(S, e, e.ks[i], Len(H)), e.cert[i].E, e.cert[i].V, Tol)

(* selection rule of the sparse solver: k extremal energies                    *)
RECURSIVE Sorted(_)
Sorted(s) == IF Len(s) <= 1 THEN s
             ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] >= s[j]
                  IN <<s[m]>> \o Sorted(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
Key(which, x) == CASE which = "LM" -> Abs(x) [] which = "LA" -> x [] which = "SA" -> -x
NearDegenerate(E) == \E i, j \in 1..Len(E) : i # j /\ Near(E[i], E[j], 5000)
SelOk(E, C, which) ==
    LET kE == Sorted([i \in 1..Len(E) |-> Key(which, E[i])])
        kC == Sorted([i \in 1..Len(C) |-> Key(which, C[i])])
    IN NearDegenerate(C) \/
       (/\ \A i \in 1..Len(E) : \E j \in 1..Len(C) : Near(E[i], C[j], Tol)
        /\ ~NearDegenerate(E)
        /\ \A i \in 1..Len(E) : Near(kE[i], kC[i], Tol))
NumB(n, e) == IF e.solver = "lapack" THEN n
              ELSE IF e.k = 0 THEN (6 * n) \div 10 ELSE e.k

StatesBad(S, e) ==
    LET n == NOrb(S, e)
        nb == NumB(n, e)
        one(i) ==
          LET H == HOf(S, e, e.ks[i])
              SS == SOf(S, e, e.ks[i], n)
              E == e.res[i].E
              V == e.res[i].V
          IN /\ Len(E) = nb
             /\ Len(V) = Len(E)
             /\ \A m \in 1..Len(E) : EigenPair(H, SS, E[m], V[m], Tol)
             \* the iterative solver does not orthogonalize degenerate states
             /\ (e.solver = "arpack" /\ NearDegenerate(e.cert[i].E)) \/ Orthonormal(SS, V, Tol)
             /\ IF e.solver = "lapack" THEN Ascending(E, 2)
                ELSE SelOk(E, e.cert[i].E, e.which)
    IN IF Len(e.res) # Len(e.ks) THEN {"states_shape"}
       ELSE IF \E i \in 1..Len(e.ks) : ~one(i) THEN {"states_not_eigenstates"} ELSE {}

Weights(e, i) == TLCEval([m \in 1..Len(e.cert[i].E) |->
                     IF e.hasproj THEN Weight(e.cert[i].V[m], e.orbs) ELSE ONE])
BandsBad(S, e) ==
    LET n == NOrb(S, e)
        nb == NumB(n, e)
        L == Lat0(S, e.who)
        shape == /\ Len(e.bands) = Len(e.ks) /\ Len(e.proj) = Len(e.ks)
                 /\ \A i \in 1..Len(e.ks) : Len(e.bands[i]) = nb /\ Len(e.proj[i]) = nb
        bok(i) == LET E == e.bands[i]
                      C == Rev(e.cert[i].E)
                  IN /\ Ascending(Rev(E), 2)
                     /\ IF e.solver = "lapack"
                        THEN \A m \in 1..n : Near(E[m], C[m], Tol)
                        ELSE SelOk(E, C, e.which)
        pok(i) == LET W == Weights(e, i)
                      C == e.cert[i].E
                  IN IF e.solver = "lapack" THEN ProjOk(e.bands[i], e.proj[i], Rev(W), Tol)
                     ELSE NearDegenerate(C) \/
                          \A m \in 1..nb : \E j \in 1..n :
                             Near(e.bands[i][m], C[j], Tol) /\ Near(e.proj[i][m], W[j], Tol)
        lenok == /\ Len(e.step2) = Len(e.ks) - 1 /\ e.first = 0 /\ e.mono
                 /\ \A i \in 1..(Len(e.ks) - 1) :
                      LET A == <<Cross(L[2], L[3]), Cross(L[3], L[1]), Cross(L[1], L[2])>>
                          v == VMat(VSub(e.ks[i+1], e.ks[i]), A)
                      IN e.step2[i] = Dot(v, v)
    IN IF ~shape THEN {"bands_shape"}
       ELSE (IF \E i \in 1..Len(e.ks) : ~bok(i) THEN {"bands"} ELSE {})
            \cup (IF \E i \in 1..Len(e.ks) : ~pok(i) THEN {"projection"} ELSE {})
            \cup (IF ~lenok THEN {"k_len"} ELSE {})

(* indices of the energies the solver selects                                  *)
Pick(e, i, nb) ==
    LET C == e.cert[i].E
        n == Len(C)
    IN IF nb = n THEN [m \in 1..n |-> m]
       ELSE LET sel(m) == Cardinality({j \in 1..n : Key(e.which, C[j]) > Key(e.which, C[m])}) < nb
            IN SelectSeq([m \in 1..n |-> m], sel)
(* the selection is unique                                                     *)
Unique(e, nb) ==
    \A i \in 1..Len(e.ks) :
        LET C == e.cert[i].E IN
        nb = Len(C) \/ (/\ ~NearDegenerate(C)
                        /\ ~NearDegenerate([m \in 1..Len(C) |-> Key(e.which, C[m])]))
DosBad(S, e) ==
    LET nb == NumB(NOrb(S, e), e)
        pk == TLCEval([i \in 1..Len(e.ks) |-> Pick(e, i, nb)])
        Es == TLCEval([i \in 1..Len(e.ks) |-> TLCEval([m \in 1..nb |-> e.cert[i].E[pk[i][m]]])])
        Ws == TLCEval([i \in 1..Len(e.ks) |-> LET W == Weights(e, i) IN TLCEval([m \in 1..nb |-> W[pk[i][m]]])])
        all == UNION {Elems(Es[i]) : i \in 1..Len(e.ks)}
        lo == IF e.auto THEN MinOf(all) ELSE e.emin
        hi == IF e.auto THEN MaxOf(all) ELSE e.emax
        q == (hi - lo) \div e.estep
        \* for limits taken from the bands the number of steps may be on an edge
        numok(m) == \/ m = q
                    \/ e.auto /\ (hi - lo) % e.estep < 50 /\ m = q - 1
                    \/ e.auto /\ (hi - lo) % e.estep > e.estep - 50 /\ m = q + 1
        m == Len(e.en) - 1
    IN IF Len(e.en) # Len(e.dos) \/ ~numok(m) THEN {"energy_grid_size"}
       ELSE IF \E i \in 0..m :
                 ~Near(e.en[i+1], lo + (IF m = 0 THEN 0 ELSE FMul(hi - lo, FDivP(i, m))), Tol)
            THEN {"energy_grid"}
       ELSE IF \E i \in 0..m :
                 ~Near(e.dos[i+1], Dos(Es, Ws, e.en[i+1], e.sg, e.basis, e.gs),
                       200 * e.gs + (IF e.sg < 300000 THEN 3000 ELSE 600) * e.gs)
            THEN {"density_of_states"} ELSE {}

Edit(S, e) ==
    LET pc == S.w.pc[1] IN
    CASE e.op = "addorb" -> [S EXCEPT !.w.pc[1].orb = Append(@, [p |-> e.p, e |-> e.e])]
      [] e.op = "addhop" -> [S EXCEPT !.w.pc[1].hop =
                               HPut(@, HKey(e.t, e.t[4], e.t[5]), <<e.t[6], e.t[7]>>)]
      [] e.op = "seteng" -> [S EXCEPT !.w.pc[1].orb[e.i + 1].e = e.e]
      [] e.op = "remorb" -> [S EXCEPT !.w.pc[1] = DropOrbs(pc, {e.i})]
      [] OTHER -> S

InitSt(case) == LET w == MkModel(case.cfg) IN
                [w |-> w,
                 ov |-> IF "ov" \in DOMAIN case.cfg THEN MkPc(case.cfg.ov) ELSE <<>>,
                 s |-> IF Len(w.sp[1].sc) = 0 THEN <<>> ELSE NewSample(w)]
Calc == {"states", "bands", "dos"}
ResOf(S, e) ==
    IF e.op \notin Calc THEN "ok"
    ELSE IF \/ e.solver \notin {"lapack", "arpack"}
            \/ e.conv \notin (IF e.who = "sp" THEN {1} ELSE {1, 2})
            \/ e.op = "dos" /\ e.basis \notin {"Gaussian", "Lorentzian"}
         THEN "ValueError" ELSE "ok"
Chk(S, e) ==
    LET res == ResOf(S, e)
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" \/ e.op \notin Calc THEN {}
             ELSE IF ~KOk(S, e) THEN {"machinery_k_not_representable"}
             ELSE IF ~CertOk(S, e) THEN {"hamiltonian_certificate"}
             ELSE CASE e.op = "states" -> StatesBad(S, e)
                    [] e.op = "bands" -> BandsBad(S, e)
                    [] e.op = "dos" -> IF Unique(e, NumB(NOrb(S, e), e)) THEN DosBad(S, e) ELSE {}
    IN [st |-> IF res = "ok" THEN Edit(S, e) ELSE S, bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
===============================================================================
