----------------------------- MODULE TopologyTrace -----------------------------
(* Histories of Z2 and spin-texture calculators: every result describes the    *)
(* model and the k-points as they are at that time.                           *)
EXTENDS Topology, TraceCore

Tol == 400
Pi2 == 6283185
Pc1(S) == S.pc
CertAt(S, conv, kn, kd, ct) ==
    LET H == HamPc(Pc1(S), conv, kn, kd) IN
    /\ PcTurnOk(Pc1(S), conv, kn, kd)
    /\ Complete1(H, ct.E)
    /\ Certified(H, Ident(Len(H)), ct.E, ct.V, Tol)
    /\ Ascending(ct.E, 2)

KPt(e, ia, ib) == <<e.ka[ia], e.kb[ib], e.kc>>
Z2Bad(S, e) ==
    LET na == Len(e.ka)
        nb == Len(e.kb)
        one(ib) ==
          IF \E ia \in 1..na : ~CertAt(S, 2, KPt(e, ia, ib), e.kd, e.cert[ib][ia])
          THEN {"hamiltonian_certificate"}
          ELSE IF \E ia \in 1..na : ~Gapped(e.cert[ib][ia].E, S.occ, 50000) THEN {}
          ELSE LET D == Wilson([ia \in 1..na |-> e.cert[ib][ia].V], S.occ) IN
               IF ~IsSpectrum(D, e.lam[ib], 200) THEN {"loop_certificate"}
               ELSE IF ~ArgsMatch(e.lam[ib], e.cs[ib], 200) THEN {"wilson_phases"}
               ELSE {}
    IN IF \/ Len(e.ph) # nb \/ \E ib \in 1..nb : Len(e.ph[ib]) # S.occ THEN {"phases_shape"}
       ELSE IF ~e.samekb THEN {"kb_array"}
       ELSE (IF \E ib \in 1..nb : \/ ~Ascending(e.ph[ib], 0)
                                  \/ \E j \in 1..S.occ : Abs(e.ph[ib][j]) > PI6 + 1
             THEN {"phases_order"} ELSE {})
            \cup UNION {one(ib) : ib \in 1..nb}

(* continuous curves tr[row][j], given wrapped to (-pi, pi] and sorted by row: *)
(* the rearranged phases follow the curves                                    *)
ReordBad(e) ==
    IF Len(e.res) # Len(e.tr) THEN {"reorder_shape"}
    ELSE IF ~e.keep THEN {"reorder_changed_argument"}
    ELSE IF \E i \in 1..Len(e.tr) : \/ Len(e.res[i]) # Len(e.tr[i])
                                    \/ \E j \in 1..Len(e.tr[i]) : ~Near(e.res[i][j], e.tr[i][j], 20)
         THEN {"reordered_phases"} ELSE {}

SpinBad(S, e) ==
    LET n == Len(Pc1(S).orb)
        one(i) ==
          LET ct == e.cert[i] IN
          IF ~CertAt(S, 1, S.ks[i], S.kd, ct) THEN {"hamiltonian_certificate"}
          ELSE LET W == [m \in 1..n |-> SpinExp(ct.V[m], e.comp, S.major)]
               IN IF ~ProjOk(ct.E, e.res[i], W, Tol) THEN {"spin_expectation"} ELSE {}
    IN IF \/ Len(e.res) # Len(S.ks) \/ \E i \in 1..Len(e.res) : Len(e.res[i]) # n
       THEN {"spin_shape"}
       ELSE UNION {one(i) : i \in 1..Len(S.ks)}
(* k_cart . a_j = 2 pi k_j, in units of 1 / kd turns                            *)
KCartBad(S, e) == IF e.res = S.ks THEN {} ELSE {"k_cart"}

Edit(S, e) ==
    CASE e.op = "addhop" -> [S EXCEPT !.pc.hop =
                               HPut(@, HKey(e.t, e.t[4], e.t[5]), <<e.t[6], e.t[7]>>)]
      [] e.op = "seteng" -> [S EXCEPT !.pc.orb[e.i + 1].e = e.e]
      [] e.op = "setk" -> [S EXCEPT !.ks = e.ks]
      [] OTHER -> S
InitSt(case) == [pc |-> MkPc(case.cfg.pc), occ |-> case.cfg.occ, ks |-> case.cfg.ks,
                 kd |-> case.cfg.kd, major |-> case.cfg.major]
ResOf(S, e) == IF e.op = "new" /\ e.occ \notin 1..Len(Pc1(S).orb) THEN "ValueError" ELSE "ok"
Chk(S, e) ==
    LET res == ResOf(S, e)
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" THEN {}
             ELSE CASE e.op = "new" -> IF e.res = e.occ THEN {} ELSE {"num_occ"}
                    [] e.op = "z2" -> Z2Bad(S, e)
                    [] e.op = "z2def" -> IF e.res THEN {} ELSE {"default_loop"}
                    [] e.op = "reorder" -> ReordBad(e)
                    [] e.op = "count" -> IF e.res = Crossings(e.ph, e.ref) THEN {}
                                         ELSE {"crossing_number"}
                    [] e.op = "spin" -> SpinBad(S, e)
                    [] e.op = "kcart" -> KCartBad(S, e)
                    [] OTHER -> {}
    IN [st |-> IF res = "ok" THEN Edit(S, e) ELSE S, bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
===============================================================================
