----------------------------- MODULE BuilderTrace -----------------------------
(* Validation of recorded histories of model-building calls against Builder. *)
EXTENDS Builder, TraceCore

(* ------------------------- observations ---------------------------------- *)
(* orbital list: <<p1, p2, p3, e, lab>> *)
OrbRepr(list, orb) ==
    /\ Len(list) = Len(orb)
    /\ \A i \in 1..Len(orb) : list[i] = <<orb[i].p[1], orb[i].p[2], orb[i].p[3],
                                          orb[i].e, orb[i].lab>>
(* directed list of an inter-hopping container *)
DirRepr(list, f) ==
    LET K(t) == <<t[1], t[2], t[3], t[4], t[5]>> IN
    /\ Len(list) = Cardinality(DOMAIN f)
    /\ {K(list[n]) : n \in 1..Len(list)} = DOMAIN f
    /\ \A n \in 1..Len(list) : f[K(list[n])] = <<list[n][6], list[n][7]>>

OutBad(out, res) ==
    IF out \in res THEN {}
    ELSE IF out = "ok" THEN {"error_not_raised"}
    ELSE IF res = OK THEN {"unexpected_error"} ELSE {"wrong_error_class"}

LockBad(w, e, may) ==
    IF Len(e.lkp) # Len(w.pc) \/ Len(e.lks) # Len(w.sc) \/ Len(e.lki) # Len(w.ih)
    THEN {"object_count"}
    ELSE (IF \E p \in 1..Len(w.pc) : /\ e.lkp[p] # w.pc[p].lk
                                     /\ ~(p \in may /\ e.lkp[p])
          THEN {"lock_of_primitive_cell"} ELSE {})
         \cup (IF \E s \in 1..Len(w.sc) : e.lks[s] # w.sc[s].lk
               THEN {"lock_of_supercell"} ELSE {})
         \cup (IF \E h \in 1..Len(w.ih) : e.lki[h] # w.ih[h].lk
               THEN {"lock_of_inter_hopping"} ELSE {})

RawBad(w, e) ==
    (IF \E p \in 1..Len(w.pc) : ~OrbRepr(e.orbs[p], w.pc[p].orb)
     THEN {"orbitals"} ELSE {})
    \cup (IF \E p \in 1..Len(w.pc) : \/ ~HListRepr(e.hops[p], w.pc[p].hop)
                                     \/ e.nhop[p] # HCount(w.pc[p].hop)
          THEN {"hopping_terms"} ELSE {})
    \cup (IF \E s \in 1..Len(w.sc) :
                 \/ e.nsc[s][1] # NumOrbSC(w.sc[s], NPc(w, s))
                 \/ e.nsc[s][2] # Cardinality(w.sc[s].vac)
          THEN {"supercell_counts"} ELSE {})
    \cup (IF \E h \in 1..Len(w.ih) : ~DirRepr(e.ihops[h], w.ih[h].hop)
          THEN {"inter_hopping_terms"} ELSE {})

(* ----------------------------- reads -------------------------------------- *)
PcArrBad(pc, a) ==
    LET n == Len(pc.orb)
        HL(k) == a.hop[k]
        cart(i) == VAdd(VMat(pc.orb[i].p, pc.lat), VScale(48, pc.org))
        dr(t) == VAdd(VScale(48, <<t[1], t[2], t[3]>>),
                      VSub(pc.orb[t[5]+1].p, pc.orb[t[4]+1].p))
    IN (IF a.pos # [i \in 1..n |-> pc.orb[i].p] THEN {"orb_pos"} ELSE {})
       \cup (IF a.eng # [i \in 1..n |-> pc.orb[i].e] THEN {"orb_eng"} ELSE {})
       \cup (IF ~HListRepr(a.hop, pc.hop) THEN {"hop_arrays"}
             ELSE (IF a.dr # [k \in 1..Len(a.hop) |-> dr(HL(k))] THEN {"dr"} ELSE {})
                  \cup (IF a.drnm # [k \in 1..Len(a.hop) |-> VMat(dr(HL(k)), pc.lat)]
                        THEN {"dr_nm"} ELSE {}))
       \cup (IF a.nm # [i \in 1..n |-> cart(i)] THEN {"orb_pos_nm"} ELSE {})
       \cup (IF a.num # n THEN {"num_orb"} ELSE {})

(* Hamiltonian in convention 2 at a k-point with coordinates 0 or 1/2       *)
HamEl(pc, k2, i, j) ==
    LET D == {k \in DOMAIN pc.hop : k[4] = i /\ k[5] = j}
        sg(k) == IF (k[1]*k2[1] + k[2]*k2[2] + k[3]*k2[3]) % 2 = 0 THEN 1 ELSE -1
        Re(k) == sg(k) * pc.hop[k][1]
        Im(k) == sg(k) * pc.hop[k][2]
    IN <<SumOver(Re, D) + (IF i = j THEN pc.orb[i+1].e ELSE 0), SumOver(Im, D)>>
HamBad(pc, e) ==
    LET n == Len(pc.orb)
        H == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> HamEl(pc, e.k2, i-1, j-1)])])
    IN (IF e.ham # H THEN {"dense_hamiltonian"} ELSE {})
       \cup (IF e.csr # H THEN {"csr_hamiltonian"} ELSE {})

ScArrBad(w, s, a) ==
    LET ids == ScIds(w, s)
        pos == ScP(w, s)
    IN (IF a.ids # ids THEN {"orb_id_pc"} ELSE {})
       \cup (IF a.back # [i \in 1..Len(ids) |-> i - 1] THEN {"orb_id_roundtrip"} ELSE {})
       \cup (IF a.eng # ScE(w, s) THEN {"sc_orb_eng"} ELSE {})
       \cup (IF a.pos # pos THEN {"sc_orb_pos"} ELSE {})
       \cup (IF ~THalf(a.hop, ScH(w, s)) THEN {"sc_hopping_terms"} ELSE {})
       \cup (IF a.lat # ScLat(w.sc[s], w.pc[w.sc[s].pc]) THEN {"sc_lat_vec"} ELSE {})

IhArrBad(w, h, a) ==
    LET T == IhTerms(w, h)
    IN IF Len(a.hop) # Cardinality(T) \/ Elems(a.hop) # T
       THEN {"inter_hopping_arrays"} ELSE {}

SpArrBad(w, q, a) ==
    LET sp == w.sp[q]
        sc(x) == (16 * x) \div sp.f
        T == {<<t[1], t[2], sc(t[3]), sc(t[4]), t[5], t[6], t[7]>> : t \in sp.hop}
    IN (IF a.eng # [i \in 1..Len(sp.eng) |-> sc(sp.eng[i])]
        THEN {"sample_orb_eng"} ELSE {})
       \cup (IF a.pos # sp.pos THEN {"sample_orb_pos"} ELSE {})
       \cup (IF ~THalfNum(a.hop, T, sp.nh) THEN {"sample_hopping_terms"} ELSE {})

ReadBad(w, e, val) ==
    CASE e.op = "read_pc" -> PcArrBad(w.pc[e.p], e.a)
      [] e.op = "ham_pc"  -> HamBad(w.pc[e.p], e)
      [] e.op = "read_sc" -> ScArrBad(w, e.s, e.a)
      [] e.op = "read_ih" -> IhArrBad(w, e.h, e.a)
      [] e.op = "read_sp" -> SpArrBad(w, e.q, e.a)
      [] e.op \in {"get_orbital", "get_hopping", "sc2pc", "pc2sc", "ih_get",
                   "ih_remove"} ->
            IF e.val # val THEN {"returned_value"} ELSE {}
      [] OTHER -> {}

Adopt(w, e, may) == [w EXCEPT !.pc = [p \in 1..Len(@) |->
                        IF p \in may THEN [@[p] EXCEPT !.lk = e.lkp[p]] ELSE @[p]]]

InitSt(case) == EmptyWorld
Chk(w, e) ==
    LET r == Step(w, e)
        b1 == OutBad(e.out, r.res)
        b2 == LockBad(r.w, e, r.may)
        b3 == RawBad(r.w, e)
        b4 == IF e.out = "ok" THEN ReadBad(r.w, e, r.val) ELSE {}
        bad == IF b1 # {} THEN b1 ELSE IF b2 # {} THEN b2
               ELSE IF b3 # {} THEN b3 ELSE b4
    IN [st |-> IF bad = {} THEN Adopt(r.w, e, r.may) ELSE w, bad |-> bad]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=============================================================================
