----------------------------- MODULE CrystalTrace -----------------------------
EXTENDS Crystal, TraceCore

RECURSIVE CloseSeq(_, _)
CloseSeq(f, list) ==
    IF list = <<>> THEN f
    ELSE LET t == Head(list)
         IN CloseSeq(HPut(f, <<t[1], t[2], t[3], t[4], t[5]>>, <<t[6], t[7]>>), Tail(list))
MkP(d) == [lat |-> d.lat, org |-> d.org, orb |-> d.orb, hop |-> CloseSeq(NoHop, d.hop)]
MkQ(o) == [lat |-> o.lat, org |-> o.org, orb |-> o.orb, hop |-> CloseSeq(NoHop, o.hop)]
ListClean(o) == LET f == CloseSeq(NoHop, o.hop) IN HListRepr(o.hop, f) /\ HNoDiag(f)

RECURSIVE Prod(_, _)
Prod(ms, i) == IF i = 0 THEN Eye ELSE MatMul(ms[i], Prod(ms, i - 1))

(* the input cell afterwards *)
SameCell(P, o) == /\ o.lat = P.lat /\ o.org = P.org /\ o.orb = CartOrb(P)
                  /\ HListRepr(o.hop, P.hop)
SixV(v) == <<v[1] \div 4, v[2] \div 4, v[3] \div 4>>        \* nm/48 -> nm/12
VNear(u, v, tol) == \A i \in 1..3 : Near(u[i], v[i], tol)
SpiralBad(P, e) ==
    LET z(v) == Rot(v, e.m, "z", <<0, 0, 0>>)
        ctr == VScale(12, e.ctr)
        exp(i) == VAdd(Rot(SixV(CartOrb(P)[i]), e.m, "z", ctr), <<0, 0, PScale * e.sh>>)
    IN (IF ~\A i \in 1..3 : VNear(e.lat6[i], z(P.lat[i]), 60) THEN {"lattice_vectors"} ELSE {})
       \cup (IF ~VNear(e.org6, Rot(P.org, e.m, "z", e.ctr), 60) THEN {"origin"} ELSE {})
       \cup (IF ~(Len(e.pos12) = Len(P.orb)
                  /\ \A i \in 1..Len(P.orb) : VNear(e.pos12[i], exp(i), 600))
             THEN {"orbital_positions"} ELSE {})
       \cup (IF ~HListRepr(e.hop, P.hop) THEN {"hopping_terms"} ELSE {})
       \cup (IF e.eng # [i \in 1..Len(P.orb) |-> P.orb[i].e] THEN {"onsite_energies"} ELSE {})

MergeRes(S, e) ==
    LET bad(h) == \E n \in 1..Len(h.hop) :
                     \/ h.hop[n][4] \notin 0..(Len(S[h.bra].orb) - 1)
                     \/ h.hop[n][5] \notin 0..(Len(S[h.ket].orb) - 1)
    IN IF Len(e.pcs) = 0 \/ e.alien THEN "ValueError"
       ELSE IF \E i \in 1..Len(e.pcs) : S[e.pcs[i]].lat # S[e.pcs[1]].lat THEN "ValueError"
       ELSE IF \E i \in 1..Len(e.ihs) : ~({e.ihs[i].bra, e.ihs[i].ket} \subseteq Elems(e.pcs))
            THEN "ValueError"
       ELSE IF \E i \in 1..Len(e.ihs) : bad(e.ihs[i]) THEN "PCOrbIndexError"
       ELSE "ok"
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
MergeBad(S, e) ==
    LET Ps == [i \in 1..Len(e.pcs) |-> S[e.pcs[i]]]
        ihs == [i \in 1..Len(e.ihs) |-> [bra |-> Pos(e.pcs, e.ihs[i].bra),
                                         ket |-> Pos(e.pcs, e.ihs[i].ket),
                                         hop |-> e.ihs[i].hop]]
        W == Merged(Ps, ihs)
    IN (IF e.q.lat # W.lat \/ e.q.org # W.org THEN {"lattice"} ELSE {})
       \cup (IF e.q.orb # W.orb THEN {"orbitals"} ELSE {})
       \cup (IF ~HListRepr(e.q.hop, W.hop) THEN {"hopping_terms"} ELSE {})
       \cup (IF \E i \in 1..Len(e.pcs) : ~SameCell(S[e.pcs[i]], e.after[i])
             THEN {"component_changed"} ELSE {})

ChainRes(e) ==
    IF e.raw = <<>> THEN "ok"
    ELSE IF e.kind = "extend"
         THEN IF Len(e.raw) \notin {2, 3} THEN "CoordLenError"
              ELSE IF \E i \in 1..Len(e.raw) : e.raw[i] < 1 THEN "ValueError" ELSE "ok"
         ELSE "LatVecError"
ChainBad(S, e) ==
    LET P == S[e.p]
        M == Prod(e.ms, Len(e.ms))
    IN IF ~ListClean(e.q) THEN {"stored_terms"}
       ELSE IF CrystalBad(P, MkQ(e.q), M) # {} THEN CrystalBad(P, MkQ(e.q), M)
       ELSE IF e.ext # Volume(M) THEN {"extended"}
       ELSE IF ~SameCell(P, e.after) THEN {"input_changed"} ELSE {}

InitSt(case) == [i \in 1..Len(case.cfg.pcs) |-> MkP(case.cfg.pcs[i])]
Chk(S, e) ==
    LET res == CASE e.op = "chain" -> ChainRes(e)
                 [] e.op = "merge" -> MergeRes(S, e)
                 [] OTHER -> "ok"
        bad == IF e.out # res
               THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
               ELSE IF e.out # "ok" THEN {}
               ELSE CASE e.op = "chain" -> ChainBad(S, e)
                      [] e.op = "spiral" -> SpiralBad(S[e.p], e)
                      [] e.op = "merge" -> MergeBad(S, e)
                      [] OTHER -> {}
    IN [st |-> S, bad |-> bad]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=============================================================================
