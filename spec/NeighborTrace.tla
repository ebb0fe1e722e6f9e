---------------------------- MODULE NeighborTrace -----------------------------
EXTENDS Neighbor, TraceCore

PcPos(pc) == [i \in 1..Len(pc.orb) |->
                 VAdd(VMat(pc.orb[i].p, pc.lat), VScale(48, pc.org))]
(* ref = <<"pc" | "sc", index>> *)
RefPos(w, ref) == IF ref[1] = "pc" THEN PcPos(w.pc[ref[2]])
                  ELSE LET s == w.sc[ref[2]]
                       IN ScPos(s, w.pc[s.pc], OrbIds(s, Len(w.pc[s.pc].orb)))
RefLat(w, ref) == IF ref[1] = "pc" THEN w.pc[ref[2]].lat
                  ELSE LET s == w.sc[ref[2]] IN ScLat(s, w.pc[s.pc])
Bad(w, e) ==
    LET pb == RefPos(w, e.bra)
        kr == IF e.ket = <<>> THEN e.bra ELSE e.ket
        pk == RefPos(w, kr)
        lat == RefLat(w, kr)
        exp == Neighbors(pb, pk, lat, e.box, e.d2)
        L == e.list
        (* the default distance is 1 nm: pairs at exactly 1 nm may or may not *)
        (* be listed                                                          *)
        edge == IF e.d2 # 2303 THEN {}
                ELSE Neighbors(pb, pk, lat, e.box, 2304) \ exp
        key(n) == <<L[n][1], L[n][2], L[n][3], L[n][4], L[n][5]>>
        got == {key(n) : n \in 1..Len(L)}
    IN IF \E n \in 1..Len(L) : Len(L[n]) # 9 THEN {"malformed"}
       ELSE (IF Cardinality(got) # Len(L) THEN {"repeated_neighbor"} ELSE {})
       \cup (IF exp \ got # {} THEN {"missing_neighbor"} ELSE {})
       \cup (IF got \ (exp \cup edge) # {} THEN {"spurious_neighbor"} ELSE {})
       \cup (IF got \subseteq (exp \cup edge) /\ \E n \in 1..Len(L) :
                   LET r == Rij(pb, pk, lat, key(n))
                   IN <<L[n][6], L[n][7], L[n][8]>> # r \/ L[n][9] # N2(r)
             THEN {"displacement"} ELSE {})
       \cup (IF \E n \in 1..(Len(L)-1) : L[n][9] > L[n+1][9] THEN {"order"} ELSE {})

Res(w, e) ==
    LET kr == IF e.ket = <<>> THEN e.bra ELSE e.ket
        empty(r) == r[1] = "pc" /\ Len(w.pc[r[2]].orb) = 0
    IN IF empty(e.bra) \/ empty(kr) THEN "PCOrbEmptyError" ELSE "ok"
InitSt(case) == MkModel(case.cfg)
Chk(w, e) ==
    [st |-> w,
     bad |-> IF e.out # Res(w, e)
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF e.out # "ok" THEN {} ELSE Bad(w, e)]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=============================================================================
