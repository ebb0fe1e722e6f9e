------------------------------- MODULE Builder -------------------------------
(* State machine of the model-building layer of TBPlaS: primitive cells,    *)
(* supercells, inter-hopping containers and samples, with the observer and  *)
(* lock discipline between them.                                            *)
(*                                                                          *)
(* World:                                                                   *)
(*   w.pc : Seq [orb : Seq [p, e, lab], hop, lk, lat, org, ext]             *)
(*   w.sc : Seq [pc, dim, pbc, vac, mod, pm, lk, seen, seenv]               *)
(*   w.ih : Seq [bra, ket, hop, lk]                                         *)
(*   w.sp : Seq [sc, ih, eng, pos, hop, f, hasE, hasP, hasH]                *)
(* p: fractional position in 1/48; e: energy (integer eV); lat/org in nm.   *)
(* hop of a pc or sc modifier is a conjugate closure (module Hop); hop of   *)
(* an inter-hopping container is a plain function of directed keys.         *)
(*                                                                          *)
(* Step(w, o) is the effect of one public call o. It returns                *)
(*   w   : next world                                                       *)
(*   res : set of admissible outcomes ("ok" or exception class names)       *)
(*   may : primitive cells that the call is additionally allowed to re-lock *)
(*   val : value returned by getters                                        *)
EXTENDS Expand

NONE == 99999
OK == {"ok"}
Ret(w, res) == [w |-> w, res |-> res, may |-> {}, val |-> <<>>]
Fail(w, errs) == Ret(w, errs)
RetV(w, v) == [w |-> w, res |-> OK, may |-> {}, val |-> v]

NewPC(lat, org) == [orb |-> <<>>, hop |-> NoHop, lk |-> FALSE, lat |-> lat,
                    org |-> org, ext |-> 1]
EmptyWorld == [pc |-> <<>>, sc |-> <<>>, ih |-> <<>>, sp |-> <<>>]

Complete(v, x) == IF Len(v) = 2 THEN Append(v, x) ELSE v
LenOk(v) == Len(v) \in {2, 3}

PcFp(p) == [orb |-> p.orb, hop |-> p.hop, lat |-> p.lat, org |-> p.org,
            ext |-> p.ext]
NPc(w, s) == Len(w.pc[w.sc[s].pc].orb)

----------------------------------------------------------------------------
(* Synchronisation of a supercell with its primitive cell *)
VacOk(sc, n) == \A v \in sc.vac : IdPcOk(v, sc.dim, n)
SyncErr(w, s) ==
    LET p == w.pc[w.sc[s].pc] IN
    IF p.orb = <<>> THEN {"PCOrbEmptyError"}
    ELSE IF DOMAIN p.hop = {} THEN {"PCHopEmptyError"}
    ELSE IF ~VacOk(w.sc[s], Len(p.orb)) THEN {"IDPCIndexError"}
    ELSE {}
SyncSC(w, s) ==
    LET pi == w.sc[s].pc
        fp == PcFp(w.pc[pi])
        changed == w.sc[s].seen # fp \/ w.sc[s].seenv # w.sc[s].vac
        w1 == [w EXCEPT !.sc[s].seen = fp, !.sc[s].seenv = w.sc[s].vac]
    IN IF SyncErr(w, s) # {} THEN Fail(w, SyncErr(w, s))
       ELSE IF changed THEN Ret([w1 EXCEPT !.pc[pi].lk = TRUE], OK)
       ELSE [Ret(w1, OK) EXCEPT !.may = {pi}]

RECURSIVE SyncAll(_, _)
SyncAll(w, ss) ==       \* sequentially, stopping at the first failure
    IF ss = <<>> THEN Ret(w, OK)
    ELSE LET r == SyncSC(w, Head(ss)) IN
         IF r.res # OK THEN r
         ELSE LET q == SyncAll(r.w, Tail(ss))
              IN [q EXCEPT !.may = @ \cup r.may]

----------------------------------------------------------------------------
(* Assembly of samples *)
ScIds(w, s) == OrbIds(w.sc[s], NPc(w, s))
ScP(w, s) == LET ids == ScIds(w, s) IN ScPos(w.sc[s], w.pc[w.sc[s].pc], ids)
ScE(w, s) == ScEng(w.pc[w.sc[s].pc], ScIds(w, s))
ScH(w, s) == LET ids == ScIds(w, s)
                 pc == w.pc[w.sc[s].pc]
             IN ScHop(w.sc[s], pc, ids, ScPos(w.sc[s], pc, ids))
IhTerms(w, h) ==        \* directed terms of an inter-hopping container
    LET x == w.ih[h]
        pb == ScP(w, x.bra)
        pk == ScP(w, x.ket)
        L == ScLat(w.sc[x.ket], w.pc[w.sc[x.ket].pc])
    IN {LET d == VSub(VAdd(pk[k[5]+1], VScale(48, VMat(HRn(k), L))), pb[k[4]+1])
        IN <<k[4], k[5], x.hop[k][1], x.hop[k][2], d[1], d[2], d[3]>>
        : k \in DOMAIN x.hop}

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
SpNum(w, q) == LET F(i) == NumOrbSC(w.sc[w.sp[q].sc[i]], NPc(w, w.sp[q].sc[i]))
               IN [i \in 0..Len(w.sp[q].sc) |-> SumTo(F, i)]
Shift(T, a, b) == {<<t[1] + a, t[2] + b, t[3], t[4], t[5], t[6], t[7]>> : t \in T}
SpEng(w, q) == Concat([i \in 1..Len(w.sp[q].sc) |-> ScE(w, w.sp[q].sc[i])])
SpPos(w, q) == Concat([i \in 1..Len(w.sp[q].sc) |-> ScP(w, w.sp[q].sc[i])])
SpHop(w, q) ==
    LET s == w.sp[q].sc
        off == SpNum(w, q)
        intra == UNION {Shift(ScH(w, s[i]), off[i-1], off[i-1]) : i \in 1..Len(s)}
        inter == UNION {LET x == w.ih[w.sp[q].ih[h]] IN
                        Shift(IhTerms(w, w.sp[q].ih[h]),
                              off[IndexOf(s, x.bra) - 1], off[IndexOf(s, x.ket) - 1])
                        : h \in 1..Len(w.sp[q].ih)}
    IN intra \cup inter \cup {TConj(t) : t \in inter}

(* number of entries of the lists: equal terms of different components are   *)
(* entries of their own                                                       *)
SpNumHop(w, q) ==
    LET s == w.sp[q].sc
        RECURSIVE A(_)
        A(i) == IF i = 0 THEN 0 ELSE Cardinality(ScH(w, s[i])) \div 2 + A(i - 1)
        RECURSIVE B(_)
        B(h) == IF h = 0 THEN 0
                ELSE Cardinality(IhTerms(w, w.sp[q].ih[h])) + B(h - 1)
    IN A(Len(s)) + B(Len(w.sp[q].ih))

(* init_*(force): sequential syncs, then the array is built *)
InitEng(w, q, force) ==
    IF w.sp[q].hasE /\ ~force THEN Ret(w, OK)
    ELSE LET r == SyncAll(w, w.sp[q].sc) IN
         IF r.res # OK THEN r
         ELSE [r EXCEPT !.w = [r.w EXCEPT !.sp[q].eng = SpEng(r.w, q),
                                          !.sp[q].hasE = TRUE]]
InitPos(w, q, force) ==
    IF w.sp[q].hasP /\ ~force THEN Ret(w, OK)
    ELSE LET r == SyncAll(w, w.sp[q].sc) IN
         IF r.res # OK THEN r
         ELSE [r EXCEPT !.w = [r.w EXCEPT !.sp[q].pos = SpPos(r.w, q),
                                          !.sp[q].hasP = TRUE]]
IhSc(w, q) == Concat([h \in 1..Len(w.sp[q].ih) |->
                      <<w.ih[w.sp[q].ih[h]].bra, w.ih[w.sp[q].ih[h]].ket>>])
InitHop(w, q, force) ==
    IF w.sp[q].hasH /\ ~force THEN Ret(w, OK)
    ELSE LET r == SyncAll(w, w.sp[q].sc)
             void == \E h \in 1..Len(w.sp[q].ih) :
                        DOMAIN w.ih[w.sp[q].ih[h]].hop = {}
         IN IF r.res # OK THEN r
            ELSE IF void THEN [r EXCEPT !.res = {"InterHopVoidError"}]
            ELSE [r EXCEPT !.w = [r.w EXCEPT !.sp[q].hop = SpHop(r.w, q),
                                             !.sp[q].nh = SpNumHop(r.w, q),
                                             !.sp[q].hasH = TRUE,
                                             !.sp[q].f = 1]]
Seq2(r, A(_)) == IF r.res # OK THEN r
                 ELSE LET q == A(r.w) IN [q EXCEPT !.may = @ \cup r.may]
LockComps(w, q) ==
    [w EXCEPT !.sc = [s \in 1..Len(@) |-> IF s \in Elems(w.sp[q].sc)
                                          THEN [@[s] EXCEPT !.lk = TRUE] ELSE @[s]],
              !.ih = [h \in 1..Len(@) |-> IF h \in Elems(w.sp[q].ih)
                                          THEN [@[h] EXCEPT !.lk = TRUE] ELSE @[h]]]
ResetSP(w, q) ==
    LET A(x) == IF x.sp[q].hasH THEN InitHop(x, q, TRUE) ELSE Ret(x, OK)
        B(x) == IF x.sp[q].hasE THEN InitEng(x, q, TRUE) ELSE Ret(x, OK)
        C(x) == IF x.sp[q].hasP THEN InitPos(x, q, TRUE) ELSE Ret(x, OK)
        D(x) == Ret(LockComps(x, q), OK)
    IN Seq2(Seq2(Seq2(A(w), B), C), D)

(* update(): propagate to all subscribers in order of subscription *)
RECURSIVE UpdSPs(_, _)
UpdSPs(w, qs) == IF qs = <<>> THEN Ret(w, OK)
                 ELSE LET A(x) == UpdSPs(x, Tail(qs))
                      IN Seq2(ResetSP(w, Head(qs)), A)
SubsOfSC(w, s) == SelectSeq([q \in 1..Len(w.sp) |-> q],
                            LAMBDA q : s \in Elems(w.sp[q].sc))
SubsOfIH(w, h) == SelectSeq([q \in 1..Len(w.sp) |-> q],
                            LAMBDA q : h \in Elems(w.sp[q].ih))
SubsOfPC(w, p) == SelectSeq([s \in 1..Len(w.sc) |-> s],
                            LAMBDA s : w.sc[s].pc = p)
UpdSC(w, s) == LET A(x) == UpdSPs(x, SubsOfSC(x, s)) IN Seq2(SyncSC(w, s), A)
RECURSIVE UpdSCs(_, _)
UpdSCs(w, ss) == IF ss = <<>> THEN Ret(w, OK)
                 ELSE LET A(x) == UpdSCs(x, Tail(ss))
                      IN Seq2(UpdSC(w, Head(ss)), A)

----------------------------------------------------------------------------
(* Primitive cell *)
HopIdxErrs(o, n) ==
    (IF ~LenOk(o.rn) THEN {"CellIndexLenError"} ELSE {})
    \cup (IF o.i \notin 0..(n-1) \/ o.j \notin 0..(n-1)
          THEN {"PCOrbIndexError"} ELSE {})
    \cup (IF LenOk(o.rn) /\ Complete(o.rn, 0) = Zero3 /\ o.i = o.j
          THEN {"PCHopDiagonalError"} ELSE {})
LockErr(b) == IF b THEN {"LockError"} ELSE {}

AddOrbital(w, o) ==
    LET errs == LockErr(w.pc[o.p].lk)
                \cup (IF LenOk(o.pos) THEN {} ELSE {"OrbPositionLenError"})
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.pc[o.p].orb =
                    Append(@, [p |-> Complete(o.pos, 0), e |-> o.e,
                               lab |-> o.lab])], OK)
SetOrbital(w, o) ==
    LET n == Len(w.pc[o.p].orb)
        errs == LockErr(w.pc[o.p].lk)
                \cup (IF o.pos = <<>> \/ LenOk(o.pos) THEN {}
                      ELSE {"OrbPositionLenError"})
                \cup (IF o.i \in 0..(n-1) THEN {} ELSE {"PCOrbIndexError"})
        old == w.pc[o.p].orb[o.i + 1]
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.pc[o.p].orb[o.i + 1] =
                    [p |-> IF o.pos = <<>> THEN old.p ELSE Complete(o.pos, 0),
                     e |-> IF o.e = NONE THEN old.e ELSE o.e,
                     lab |-> IF o.lab = "" THEN old.lab ELSE o.lab]], OK)
DropOrbs(pc, S) ==
    LET keep == SelectSeq([i \in 1..Len(pc.orb) |-> i], LAMBDA i : (i-1) \notin S)
    IN [pc EXCEPT !.orb = [i \in 1..Len(keep) |-> pc.orb[keep[i]]],
                  !.hop = HDropOrb(@, S)]
RemoveOrbitals(w, o) ==
    LET S == Elems(o.ix)
        errs == LockErr(w.pc[o.p].lk)
                \cup (IF S \subseteq 0..(Len(w.pc[o.p].orb)-1) THEN {}
                      ELSE {"PCOrbIndexError"})
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.pc[o.p] = DropOrbs(@, S)], OK)
AddHopping(w, o) ==
    LET errs == LockErr(w.pc[o.p].lk) \cup HopIdxErrs(o, Len(w.pc[o.p].orb))
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.pc[o.p].hop =
                    HPut(@, HKey(Complete(o.rn, 0), o.i, o.j), o.v)], OK)
(* o.terms: sequence of [rn, i, j, v] in the order the matrices are read *)
RECURSIVE PutAll(_, _)
PutAll(f, ts) == IF ts = <<>> THEN f
                 ELSE PutAll(HPut(f, HKey(Complete(Head(ts).rn, 0), Head(ts).i,
                                          Head(ts).j), Head(ts).v), Tail(ts))
AddHopDict(w, o) ==
    LET n == Len(w.pc[o.p].orb)
        errs == LockErr(w.pc[o.p].lk)
                \cup UNION {HopIdxErrs(t, n) : t \in Elems(o.terms)}
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.pc[o.p].hop = PutAll(@, o.terms)], OK)
GetHopping(w, o) ==
    LET errs == HopIdxErrs(o, Len(w.pc[o.p].orb))
        k == HKey(Complete(o.rn, 0), o.i, o.j)
    IN IF errs # {} THEN Fail(w, errs)
       ELSE IF k \in DOMAIN w.pc[o.p].hop THEN RetV(w, w.pc[o.p].hop[k])
       ELSE Fail(w, {"PCHopNotFoundError"})
RemoveHopping(w, o) ==
    LET errs == LockErr(w.pc[o.p].lk) \cup HopIdxErrs(o, Len(w.pc[o.p].orb))
        k == HKey(Complete(o.rn, 0), o.i, o.j)
    IN IF errs # {} THEN Fail(w, errs)
       ELSE IF k \in DOMAIN w.pc[o.p].hop
            THEN Ret([w EXCEPT !.pc[o.p].hop = HDel(@, k)], OK)
            ELSE Fail(w, {"PCHopNotFoundError"})
TrimPC(w, o) ==
    LET pc == w.pc[o.p]
        S == {i \in 0..(Len(pc.orb)-1) : HDegree(pc.hop, i) <= 1}
    IN IF pc.lk THEN Fail(w, {"LockError"})
       ELSE Ret([w EXCEPT !.pc[o.p] = DropOrbs(@, S)], OK)
ApplyPbc(w, o) ==
    LET errs == LockErr(w.pc[o.p].lk)
                \cup (IF Len(o.pbc) = 3 THEN {} ELSE {"ValueError"})
        Keep(k) == \A d \in 1..3 : o.pbc[d] \/ k[d] = 0
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.pc[o.p].hop = HRestrict(@, Keep)], OK)
(* diagonal lattices only; other lattices are covered by module Transform *)
ResetLattice(w, o) ==
    LET pc == w.pc[o.p]
        np(x) == [d \in 1..3 |-> (x[d] * pc.lat[d][d]
                                  + 48 * (pc.org[d] - o.org[d])) \div o.lat[d][d]]
    IN IF pc.lk THEN Fail(w, {"LockError"})
       ELSE Ret([w EXCEPT !.pc[o.p].lat = o.lat, !.pc[o.p].org = o.org,
                          !.pc[o.p].orb = IF o.fix
                             THEN [i \in 1..Len(@) |-> [@[i] EXCEPT !.p = np(@)]]
                             ELSE @], OK)
GetOrbital(w, o) ==
    IF o.i \in 0..(Len(w.pc[o.p].orb)-1)
    THEN LET b == w.pc[o.p].orb[o.i+1] IN RetV(w, <<b.p[1], b.p[2], b.p[3], b.e>>)
    ELSE Fail(w, {"PCOrbIndexError"})

----------------------------------------------------------------------------
(* Supercell *)
VacErrs(vs, dim, n) ==
    UNION {IF Len(v) # 4 THEN {"IDPCLenError"}
           ELSE IF ~IdPcOk(v, dim, n) THEN {"IDPCIndexError"} ELSE {}
           : v \in Elems(vs)}
NewSC(w, o) ==
    LET pc == w.pc[o.p]
        dim == Complete(o.dim, 1)
        pbc == Complete(o.pbc, FALSE)
        errs == (IF pc.orb = <<>> THEN {"PCOrbEmptyError"} ELSE {})
                \cup (IF DOMAIN pc.hop = {} THEN {"PCHopEmptyError"} ELSE {})
                \cup (IF ~LenOk(o.dim) THEN {"SCDimLenError"}
                      ELSE IF \E d \in 1..3 : dim[d] < MinDim(pc, d)
                      THEN {"SCDimSizeError"} ELSE {})
                \cup (IF ~LenOk(o.pbc) THEN {"PBCLenError"} ELSE {})
                \cup (IF LenOk(o.dim) /\ \A d \in 1..3 : dim[d] >= 1
                      THEN VacErrs(o.vac, dim, Len(pc.orb)) ELSE {})
        sc == [pc |-> o.p, dim |-> dim, pbc |-> pbc, vac |-> Elems(o.vac),
               mod |-> NoHop, pm |-> o.pm, lk |-> FALSE, seen |-> PcFp(pc),
               seenv |-> {}]
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.sc = Append(@, sc), !.pc[o.p].lk = TRUE], OK)
AddVac(w, o) ==
    LET sc == w.sc[o.s]
        errs == LockErr(sc.lk) \cup VacErrs(o.vac, sc.dim, NPc(w, o.s))
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.sc[o.s].vac = @ \cup Elems(o.vac)], OK)
SetVac(w, o) ==
    LET sc == w.sc[o.s]
        errs == LockErr(sc.lk) \cup VacErrs(o.vac, sc.dim, NPc(w, o.s))
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.sc[o.s].vac = Elems(o.vac)], OK)
ScAddHop(w, o) ==
    LET sc == w.sc[o.s]
        n == NumOrbSC(sc, NPc(w, o.s))
        errs == LockErr(sc.lk)
                \cup (IF ~LenOk(o.rn) THEN {"CellIndexLenError"} ELSE {})
                \cup (IF o.i \notin 0..(n-1) \/ o.j \notin 0..(n-1)
                      THEN {"SCOrbIndexError"} ELSE {})
                \cup (IF LenOk(o.rn) /\ Complete(o.rn, 0) = Zero3 /\ o.i = o.j
                      THEN {"SCHopDiagonalError"} ELSE {})
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.sc[o.s].mod =
                    HPut(@, HKey(Complete(o.rn, 0), o.i, o.j), o.v)], OK)
SetPosMod(w, o) ==
    IF w.sc[o.s].lk THEN Fail(w, {"LockError"})
    ELSE Ret([w EXCEPT !.sc[o.s].pm = o.pm], OK)
TrimSC(w, o) ==
    LET r == SyncSC(w, o.s)
        ids == ScIds(w, o.s)
        T == ScH(w, o.s)
        S == {i \in 0..(Len(ids)-1) :
                 Cardinality({t \in T : t[1] = i}) <= 1}
    IN IF w.sc[o.s].lk THEN Fail(w, {"LockError"})
       ELSE IF r.res # OK THEN r
       ELSE [r EXCEPT !.w = [r.w EXCEPT
                !.sc[o.s].vac = @ \cup {ids[i+1] : i \in S},
                !.sc[o.s].mod = HDropOrb(@, S)]]
Sc2Pc(w, o) ==          \* orb_id_sc2pc
    LET r == SyncSC(w, o.s)
        ids == ScIds(w, o.s)
    IN IF r.res # OK THEN r
       ELSE IF \E i \in Elems(o.ids) : i \notin 0..(Len(ids)-1)
       THEN [r EXCEPT !.res = {"IDSCIndexError"}]
       ELSE [r EXCEPT !.val = [k \in 1..Len(o.ids) |-> ids[o.ids[k] + 1]]]
Pc2Sc(w, o) ==          \* orb_id_pc2sc
    LET r == SyncSC(w, o.s)
        sc == w.sc[o.s]
        n == NPc(w, o.s)
        idxbad == \E v \in Elems(o.ids) : Len(v) = 4 /\ ~IdPcOk(v, sc.dim, n)
        lenbad == \E v \in Elems(o.ids) : Len(v) # 4
        vacbad == \E v \in Elems(o.ids) : v \in sc.vac
        errs == (IF lenbad THEN {"IDPCLenError"} ELSE {})
                \cup (IF idxbad THEN {"IDPCIndexError"} ELSE {})
                \cup (IF vacbad THEN {"IDPCVacError"} ELSE {})
    IN IF r.res # OK THEN r
       ELSE IF errs # {} THEN [r EXCEPT !.res = errs]
       ELSE [r EXCEPT !.val = [k \in 1..Len(o.ids) |-> ScId(o.ids[k], sc, n)]]

----------------------------------------------------------------------------
(* Inter-hopping containers and samples *)
NewIH(w, o) == Ret([w EXCEPT !.ih = Append(@, [bra |-> o.bra, ket |-> o.ket,
                                              hop |-> NoHop, lk |-> FALSE])], OK)
IhRnErr(o) == IF LenOk(o.rn) THEN {} ELSE {"CellIndexLenError"}
IhAdd(w, o) ==
    LET errs == LockErr(w.ih[o.h].lk) \cup IhRnErr(o)
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.ih[o.h].hop =
                   (HKey(Complete(o.rn, 0), o.i, o.j) :> o.v) @@ @], OK)
IhRemove(w, o) ==
    LET errs == LockErr(w.ih[o.h].lk) \cup IhRnErr(o)
        k == HKey(Complete(o.rn, 0), o.i, o.j)
        f == w.ih[o.h].hop
    IN IF errs # {} THEN Fail(w, errs)
       ELSE IF k \in DOMAIN f
       THEN [Ret([w EXCEPT !.ih[o.h].hop = [x \in DOMAIN f \ {k} |-> f[x]]], OK)
             EXCEPT !.val = <<1>>]
       ELSE RetV(w, <<0>>)
IhRemoveRn(w, o) ==
    LET errs == LockErr(w.ih[o.h].lk) \cup IhRnErr(o)
        rn == Complete(o.rn, 0)
        f == w.ih[o.h].hop
        Keep(k) == HRn(k) # rn
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret([w EXCEPT !.ih[o.h].hop = HRestrict(f, Keep)], OK)
IhRemoveOrb(w, o) ==
    IF w.ih[o.h].lk THEN Fail(w, {"LockError"})
    ELSE Ret([w EXCEPT !.ih[o.h].hop = HDropOrb(@, Elems(o.ix))], OK)
IhGet(w, o) ==
    LET k == HKey(Complete(o.rn, 0), o.i, o.j)
        f == w.ih[o.h].hop
    IN IF IhRnErr(o) # {} THEN Fail(w, IhRnErr(o))
       ELSE IF k \in DOMAIN f THEN RetV(w, <<1, f[k][1], f[k][2]>>)
       ELSE RetV(w, <<0, 0, 0>>)

NewSP(w, o) ==
    LET errs == (IF o.sc = <<>> /\ o.ih = <<>> /\ ~o.alien
                 THEN {"SampleVoidError"} ELSE {})
                \cup (IF o.alien THEN {"SampleCompError"} ELSE {})
                \cup (IF \E h \in Elems(o.ih) :
                          \/ w.ih[h].bra \notin Elems(o.sc)
                          \/ w.ih[h].ket \notin Elems(o.sc)
                      THEN {"SampleClosureError"} ELSE {})
        sp == [sc |-> o.sc, ih |-> o.ih, eng |-> <<>>, pos |-> <<>>, hop |-> {},
               f |-> 1, nh |-> 0, hasE |-> FALSE, hasP |-> FALSE, hasH |-> FALSE]
        w1 == [w EXCEPT !.sp = Append(@, sp)]
    IN IF errs # {} THEN Fail(w, errs)
       ELSE Ret(LockComps(w1, Len(w1.sp)), OK)
Rescale(w, o) ==
    LET A(x) == InitHop(x, o.q, FALSE)
        B(x) == Ret([x EXCEPT !.sp[o.q].f = o.f], OK)
    IN Seq2(Seq2(InitEng(w, o.q, FALSE), A), B)
InitAll(w, q) ==
    LET A(x) == InitPos(x, q, FALSE)
        B(x) == InitHop(x, q, FALSE)
    IN Seq2(Seq2(InitEng(w, q, FALSE), A), B)

----------------------------------------------------------------------------
Unlock(w, o) == Ret(CASE o.kind = "pc" -> [w EXCEPT !.pc[o.n].lk = FALSE]
                      [] o.kind = "sc" -> [w EXCEPT !.sc[o.n].lk = FALSE]
                      [] o.kind = "ih" -> [w EXCEPT !.ih[o.n].lk = FALSE], OK)
Update(w, o) == CASE o.kind = "pc" -> UpdSCs(w, SubsOfPC(w, o.n))
                  [] o.kind = "sc" -> UpdSC(w, o.n)
                  [] o.kind = "ih" -> UpdSPs(w, SubsOfIH(w, o.n))
                  [] o.kind = "sp" -> ResetSP(w, o.n)

Step(w, o) ==
    CASE o.op = "new_pc"      -> Ret([w EXCEPT !.pc = Append(@, NewPC(o.lat, o.org))], OK)
      [] o.op = "add_orbital" -> AddOrbital(w, o)
      [] o.op = "set_orbital" -> SetOrbital(w, o)
      [] o.op = "get_orbital" -> GetOrbital(w, o)
      [] o.op = "remove_orbitals" -> RemoveOrbitals(w, o)
      [] o.op = "add_hopping" -> AddHopping(w, o)
      [] o.op = "add_hopping_dict" -> AddHopDict(w, o)
      [] o.op = "get_hopping" -> GetHopping(w, o)
      [] o.op = "remove_hopping" -> RemoveHopping(w, o)
      [] o.op = "trim_pc"     -> TrimPC(w, o)
      [] o.op = "apply_pbc"   -> ApplyPbc(w, o)
      [] o.op = "reset_lattice" -> ResetLattice(w, o)
      [] o.op = "read_pc"     -> Ret(w, OK)
      [] o.op = "ham_pc"      -> Ret(w, IF w.pc[o.p].orb = <<>> THEN {"PCOrbEmptyError"}
                                        ELSE IF DOMAIN w.pc[o.p].hop = {}
                                        THEN {"PCHopEmptyError"} ELSE OK)
      [] o.op = "new_sc"      -> NewSC(w, o)
      [] o.op = "add_vac"     -> AddVac(w, o)
      [] o.op = "set_vac"     -> SetVac(w, o)
      [] o.op = "sc_add_hop"  -> ScAddHop(w, o)
      [] o.op = "set_posmod"  -> SetPosMod(w, o)
      [] o.op = "trim_sc"     -> TrimSC(w, o)
      [] o.op = "sc2pc"       -> Sc2Pc(w, o)
      [] o.op = "pc2sc"       -> Pc2Sc(w, o)
      [] o.op = "read_sc"     -> SyncSC(w, o.s)
      [] o.op = "new_ih"      -> NewIH(w, o)
      [] o.op = "ih_add"      -> IhAdd(w, o)
      [] o.op = "ih_remove"   -> IhRemove(w, o)
      [] o.op = "ih_remove_rn" -> IhRemoveRn(w, o)
      [] o.op = "ih_remove_orb" -> IhRemoveOrb(w, o)
      [] o.op = "ih_get"      -> IhGet(w, o)
      [] o.op = "read_ih"     -> IF DOMAIN w.ih[o.h].hop = {}
                                 THEN Fail(w, {"InterHopVoidError"})
                                 ELSE SyncAll(w, <<w.ih[o.h].bra, w.ih[o.h].ket>>)
      [] o.op = "new_sp"      -> NewSP(w, o)
      [] o.op = "init_eng"    -> InitEng(w, o.q, o.force)
      [] o.op = "init_pos"    -> InitPos(w, o.q, o.force)
      [] o.op = "init_hop"    -> InitHop(w, o.q, o.force)
      [] o.op = "reset_sp"    -> ResetSP(w, o.q)
      [] o.op = "rescale"     -> Rescale(w, o)
      [] o.op = "read_sp"     -> InitAll(w, o.q)
      [] o.op = "unlock"      -> Unlock(w, o)
      [] o.op = "update"      -> Update(w, o)

----------------------------------------------------------------------------
(* Invariants of the design *)
PcOk(pc) == HClosed(pc.hop) /\ HNoDiag(pc.hop) /\ HInRange(pc.hop, Len(pc.orb))
ScOk(w, s) == HClosed(w.sc[s].mod) /\ HNoDiag(w.sc[s].mod)
SpOk(w, q) == /\ w.sp[q].hasH => \A t \in w.sp[q].hop : TConj(t) \in w.sp[q].hop
              /\ w.sp[q].f >= 1
WorldOk(w) == /\ \A p \in 1..Len(w.pc) : PcOk(w.pc[p])
              /\ \A s \in 1..Len(w.sc) : ScOk(w, s)
              /\ \A q \in 1..Len(w.sp) : SpOk(w, q)

(* An operation that fails leaves the model untouched. Calls that propagate *)
(* to several objects (update, resets, reads of samples) may have completed *)
(* part of the propagation when they fail; they never change a model.       *)
Model(w) == [pc |-> [p \in 1..Len(w.pc) |-> PcFp(w.pc[p])],
             sc |-> [s \in 1..Len(w.sc) |-> [pc |-> w.sc[s].pc, dim |-> w.sc[s].dim,
                       pbc |-> w.sc[s].pbc, vac |-> w.sc[s].vac, mod |-> w.sc[s].mod,
                       pm |-> w.sc[s].pm]],
             ih |-> [h \in 1..Len(w.ih) |-> [w.ih[h] EXCEPT !.lk = FALSE]]]
ModelOps == {"add_orbital", "set_orbital", "remove_orbitals", "add_hopping",
             "add_hopping_dict", "remove_hopping", "trim_pc", "apply_pbc",
             "reset_lattice", "add_vac", "set_vac", "sc_add_hop", "set_posmod",
             "trim_sc", "ih_add", "ih_remove", "ih_remove_rn", "ih_remove_orb",
             "new_pc", "new_sc", "new_ih"}
StepOk(w, o) ==
    LET r == Step(w, o) IN
    /\ r.res # OK => Model(r.w) = Model(w)
    /\ o.op \notin ModelOps => Model(r.w) = Model(w)
    (* no call changes a component that is locked *)
    /\ \A p \in 1..Len(w.pc) : w.pc[p].lk => PcFp(r.w.pc[p]) = PcFp(w.pc[p])
    /\ \A s \in 1..Len(w.sc) : w.sc[s].lk => Model(r.w).sc[s] = Model(w).sc[s]
    /\ \A h \in 1..Len(w.ih) : w.ih[h].lk => r.w.ih[h].hop = w.ih[h].hop
    (* only an explicit unlock releases a lock *)
    /\ o.op # "unlock" => /\ \A p \in 1..Len(w.pc) : w.pc[p].lk => r.w.pc[p].lk
                          /\ \A s \in 1..Len(w.sc) : w.sc[s].lk => r.w.sc[s].lk
                          /\ \A h \in 1..Len(w.ih) : w.ih[h].lk => r.w.ih[h].lk
=============================================================================
