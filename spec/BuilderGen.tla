------------------------------ MODULE BuilderGen ------------------------------
(* Random histories of the Builder state machine, written as JSON for the    *)
(* replay driver (tlc -simulate). Every behaviour is a behaviour of Builder;  *)
(* the arguments are drawn with RandomElement. Prof selects the mix of calls. *)
EXTENDS Builder, Json, IOUtils, CSV

CONSTANTS Prof, Depth
VARIABLES w, hist

R(S) == RandomElement(S)
(* Random operators take a dummy argument: TLC evaluates a constant         *)
(* definition without parameters only once.                                  *)
One(n) == R(1..n) = 1                      \* true with probability 1/n
Err(z) == CASE Prof = "err" -> One(5) [] OTHER -> One(14)

RECURSIVE Weighted(_)
Weighted(ks) == IF ks = <<>> THEN <<>>
                ELSE [i \in 1..Head(ks)[2] |-> Head(ks)[1]] \o Weighted(Tail(ks))
Pick(ks) == LET s == Weighted(ks) IN s[R(1..Len(s))]

----------------------------------------------------------------------------
Lats == {<<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>, <<<<2,0,0>>,<<0,1,0>>,<<0,0,4>>>>,
         <<<<1,0,0>>,<<0,4,0>>,<<0,0,2>>>>}
SkewLats == Lats \cup {<<<<2,0,0>>,<<1,2,0>>,<<0,0,1>>>>, <<<<1,1,0>>,<<-1,1,0>>,<<0,1,3>>>>,
                       <<<<0,2,0>>,<<0,0,1>>,<<1,0,1>>>>}
Orgs == {Zero3, <<1,0,0>>, <<-1,2,0>>, <<0,0,3>>}
Pos3(z) == <<12 * R(-2..5), 12 * R(-2..5), 12 * R(-1..3)>>
PosArg(z) == IF Err(0) THEN R({<<>> \o <<12>>, <<12, 24, 0, 12>>})
          ELSE IF One(3) THEN <<12 * R(-2..5), 12 * R(0..3)>> ELSE Pos3(0)
Eng(z) == R({-3, -2, -1, 0, 1, 2, 5})
Labs == {"X", "C", "s"}
Val(z) == R({<<1,0>>, <<-1,0>>, <<-2,0>>, <<2,0>>, <<0,1>>, <<0,-1>>, <<0,-2>>,
          <<3,-1>>, <<-1,2>>, <<-2,-2>>, <<-1,-1>>, <<5,0>>, <<-1,-2>>, <<-2,-1>>,
          <<4,3>>, <<0,3>>, <<-3,2>>})

Npc(v) == Len(v.pc)
HasSC(v, p) == \E s \in 1..Len(v.sc) : v.sc[s].pc = p
(* the range of cell indices a new hopping term may use along direction d *)
MaxR(v, p, d) ==
    LET D == {v.sc[s].dim[d] : s \in {x \in 1..Len(v.sc) : v.sc[x].pc = p}}
    IN IF D = {} THEN (IF d = 3 THEN 1 ELSE 2) ELSE (MinOf(D) - 1) \div 2
Rn3(v, p) == <<R(-MaxR(v,p,1)..MaxR(v,p,1)),
               R(-MaxR(v,p,2)..MaxR(v,p,2)),
               IF One(2) THEN 0 ELSE R(-MaxR(v,p,3)..MaxR(v,p,3))>>
RnArg(v, p) == IF Err(0) THEN R({<<0>>, <<0,1,0,0>>})
               ELSE LET r == <<Rn3(v, p)>>
                        t == r[1]
                    IN IF t[3] = 0 /\ One(2) THEN <<t[1], t[2]>> ELSE t
(* an existing term, in either orientation *)
OldKey(f) == R(DOMAIN f)
OrbIx(n) == IF Err(0) \/ n = 0 THEN R({n, n + 1, -1}) ELSE R(0..(n-1))
OrbIxPos(n) == IF Err(0) \/ n = 0 THEN R({n, n + 1}) ELSE R(0..(n-1))

IhOn(v, p) == \E h \in 1..Len(v.ih) : v.sc[v.ih[h].bra].pc = p \/ v.sc[v.ih[h].ket].pc = p
ModOn(v, p) == \E s \in 1..Len(v.sc) : v.sc[s].pc = p /\ v.sc[s].mod # NoHop
IhOnSC(v, s) == \E h \in 1..Len(v.ih) : v.ih[h].bra = s \/ v.ih[h].ket = s
(* may orbitals be removed from p without breaking indices held elsewhere? *)
Removable(v, p, k) ==
    /\ ~IhOn(v, p) /\ ~ModOn(v, p)
    /\ \A s \in 1..Len(v.sc) : v.sc[s].pc = p =>
          (Len(v.pc[p].orb) - k) * Prod3(v.sc[s].dim) > Cardinality(v.sc[s].vac) + 1

(* hop arguments: new term or existing one *)
HopArgs(v, p) ==
    LET n == Len(v.pc[p].orb) IN
    IF DOMAIN v.pc[p].hop # {} /\ One(3)
    THEN LET k == OldKey(v.pc[p].hop)
         IN [rn |-> HRn(k), i |-> k[4], j |-> k[5]]
    ELSE [rn |-> RnArg(v, p), i |-> OrbIx(n), j |-> OrbIx(n)]

GAddOrb(v, p) == {[op |-> "add_orbital", p |-> p, pos |-> PosArg(0), e |-> Eng(0),
                  lab |-> R(Labs), cart |-> One(4)]}
GSetOrb(v, p) == {[op |-> "set_orbital", p |-> p, i |-> OrbIxPos(Len(v.pc[p].orb)),
                  pos |-> IF One(2) THEN <<>> ELSE PosArg(0),
                  e |-> IF One(3) THEN NONE ELSE Eng(0),
                  lab |-> IF One(2) THEN "" ELSE R(Labs)]}
GGetOrb(v, p) == {[op |-> "get_orbital", p |-> p, i |-> OrbIxPos(Len(v.pc[p].orb))]}
GRemOrb(v, p) ==
    LET n == Len(v.pc[p].orb)
        ix == IF One(2) THEN <<OrbIx(n)>> ELSE <<OrbIx(n), OrbIx(n)>>
    IN {[op |-> "remove_orbitals", p |-> p, ix |-> x] : x \in {ix}}
GAddHop(v, p) == {[op |-> "add_hopping", p |-> p, rn |-> a.rn, i |-> a.i,
                   j |-> a.j, v |-> Val(0)] : a \in {HopArgs(v, p)}}
GGetHop(v, p) == {[op |-> "get_hopping", p |-> p, rn |-> a.rn, i |-> a.i,
                   j |-> a.j] : a \in {HopArgs(v, p)}}
GRemHop(v, p) == {[op |-> "remove_hopping", p |-> p, rn |-> a.rn, i |-> a.i,
                   j |-> a.j] : a \in {HopArgs(v, p)}}
(* a hopping dictionary of up to three terms on distinct unordered pairs *)
GAddDict(v, p) ==
    LET t == {[rn |-> a.rn, i |-> Abs(a.i), j |-> Abs(a.j), v |-> Val(0)]
              : a \in {HopArgs(v, p), HopArgs(v, p)}}
        u == {[rn |-> a.rn, i |-> Abs(a.i), j |-> Abs(a.j), v |-> Val(0)]
              : a \in {HopArgs(v, p)}}
        key(x) == IF LenOk(x.rn) THEN HKey(Complete(x.rn, 0), x.i, x.j)
                  ELSE <<9, 9, 9, 9, 9>>
        apart(S) == \A x, y \in S : x # y => /\ key(x) # key(y)
                                             /\ key(x) # HConj(key(y))
        seqs(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Elems(q) = S
    IN {[op |-> "add_hopping_dict", p |-> p, terms |-> seqs(S)]
        : S \in {IF apart(T) THEN T ELSE U : T \in {t}, U \in {u}}}
GPbc(v, p) == {[op |-> "apply_pbc", p |-> p,
               pbc |-> IF Err(0) THEN <<TRUE, FALSE>>
                       ELSE <<R(BOOLEAN), R(BOOLEAN), R(BOOLEAN)>>]}
(* halve or double diagonal lattices so that positions stay representable *)
Halvings(h) == Cardinality({i \in 1..Len(h) : h[i].op = "reset_lattice"})
Diag(l) == \A a, b \in 1..3 : a # b => l[a][b] = 0
GReset(v, p) ==
    {[op |-> "reset_lattice", p |-> p, lat |-> l, org |-> R(Orgs),
      fix |-> f] : l \in {R(Lats)}, f \in {R(BOOLEAN)}}

Kind(v) == R((IF v.pc # <<>> THEN {"pc"} ELSE {}) \cup
             (IF v.sc # <<>> THEN {"sc"} ELSE {}) \cup
             (IF v.ih # <<>> THEN {"ih"} ELSE {}))
KindU(v) == R((IF v.pc # <<>> THEN {"pc"} ELSE {}) \cup
             (IF v.sc # <<>> THEN {"sc"} ELSE {}) \cup
             (IF v.ih # <<>> THEN {"ih"} ELSE {}) \cup
             (IF v.sp # <<>> THEN {"sp"} ELSE {}))
NumOf(v, k) == CASE k = "pc" -> Len(v.pc) [] k = "sc" -> Len(v.sc)
                 [] k = "ih" -> Len(v.ih) [] k = "sp" -> Len(v.sp)
GUnlock(v) == {[op |-> "unlock", kind |-> k, n |-> R(1..NumOf(v, k))] : k \in {Kind(v)}}
GUpdate(v) == {[op |-> "update", kind |-> k, n |-> R(1..NumOf(v, k))] : k \in {KindU(v)}}

DimArg(v, p, d) == LET m == MinDim(v.pc[p], d)
                   IN IF Err(0) /\ m > 1 THEN m - 1
                      ELSE IF m >= 5 THEN m ELSE m + R(0..(IF m = 1 THEN 2 ELSE 1))
VacId(dim, n) == IF Err(0) THEN R({<<dim[1], 0, 0, 0>>, <<0, -1, 0, 0>>, <<0, 0, 0, n>>,
                                <<0, 0, 0>>, <<0, 0, dim[3], 0>>, <<0, 0, 0, -1>>})
                 ELSE <<R(0..(dim[1]-1)), R(0..(dim[2]-1)), R(0..(dim[3]-1)), R(0..(n-1))>>
Vacs(dim, n) == [x \in 1..R(0..3) |-> VacId(dim, n)]
GNewSC(v, p) ==
    {LET c == Complete(d, 1) IN
     [op |-> "new_sc", p |-> p, dim |-> d,
      pbc |-> IF Err(0) THEN R({<<TRUE>>, <<TRUE, TRUE, TRUE, TRUE>>})
              ELSE IF One(4) THEN <<R(BOOLEAN), R(BOOLEAN)>>
              ELSE <<R(BOOLEAN), R(BOOLEAN), R(BOOLEAN)>>,
      vac |-> IF One(2) \/ Len(c) # 3 \/ v.pc[p].orb = <<>>
                 \/ Prod3(c) * Len(v.pc[p].orb) < 5
              THEN <<>> ELSE Vacs(c, Len(v.pc[p].orb)),
      pm |-> IF One(2) THEN 0 ELSE R(0..2)]
     : d \in {IF Err(0) THEN R({<<1>>, <<3, 3, 3, 3>>})
              ELSE LET q == <<DimArg(v,p,1), DimArg(v,p,2), DimArg(v,p,3)>>
                   IN IF q[3] = 1 /\ One(3) THEN <<q[1], q[2]>> ELSE q}}
ScN(v, s) == NumOrbSC(v.sc[s], NPc(v, s))
GVac(v, s, name) == {[op |-> name, s |-> s, vac |-> Vacs(v.sc[s].dim, NPc(v, s))]}
(* modifier terms use each unordered pair of orbitals at most once *)
GModHop(v, s) ==
    LET n == ScN(v, s)
        used == {{k[4], k[5]} : k \in DOMAIN v.sc[s].mod}
        bare == BareHop(v.sc[s], v.pc[v.sc[s].pc], ScIds(v, s), ScP(v, s))
        pr == IF bare # {} /\ One(2) THEN LET t == R(bare) IN <<t[1], t[2]>>
              ELSE <<OrbIx(n), OrbIx(n)>>
    IN {IF {x[1], x[2]} \in used
        THEN LET k == CHOOSE k \in DOMAIN v.sc[s].mod : {k[4], k[5]} = {x[1], x[2]}
             IN [op |-> "sc_add_hop", s |-> s, rn |-> HRn(k), i |-> k[4], j |-> k[5],
                 v |-> Val(0)]
        ELSE [op |-> "sc_add_hop", s |-> s,
              rn |-> IF Err(0) THEN R({<<1>>, <<0, 0, 0, 0>>})
                     ELSE IF One(2) THEN <<0, 0>>
                     ELSE <<R(-1..1), R(-1..1), R(-1..1)>>,
              i |-> x[1], j |-> x[2], v |-> Val(0)]
        : x \in {pr}}
GPm(v, s) == {[op |-> "set_posmod", s |-> s, pm |-> R(0..2)]}
GSc2Pc(v, s) == LET n == ScN(v, s) IN
    {[op |-> "sc2pc", s |-> s,
      ids |-> [x \in 1..R(1..4) |-> IF Err(0) THEN R({-1, n, n + 3}) ELSE R(0..(n-1))]]}
GPc2Sc(v, s) ==
    {[op |-> "pc2sc", s |-> s,
      ids |-> [x \in 1..R(1..4) |->
                 IF Err(0) /\ v.sc[s].vac # {} /\ One(2) THEN R(v.sc[s].vac)
                 ELSE IF v.sc[s].vac # {} /\ One(6) THEN R(v.sc[s].vac)
                 ELSE VacId(v.sc[s].dim, NPc(v, s))]]}

IhArgs(v, h) ==
    LET f == v.ih[h].hop IN
    IF DOMAIN f # {} /\ One(3)
    THEN LET k == OldKey(f) IN [rn |-> HRn(k), i |-> k[4], j |-> k[5]]
    ELSE [rn |-> IF Err(0) THEN R({<<1>>, <<0,0,0,0>>})
                 ELSE IF One(3) THEN <<R(-1..1), R(-1..1)>>
                 ELSE <<R(-1..1), R(-1..1), R(-1..1)>>,
          i |-> R(0..(ScN(v, v.ih[h].bra)-1)), j |-> R(0..(ScN(v, v.ih[h].ket)-1))]
GIhAdd(v, h) == {[op |-> "ih_add", h |-> h, rn |-> a.rn, i |-> a.i, j |-> a.j,
                  v |-> Val(0)] : a \in {IhArgs(v, h)}}
GIhRem(v, h) == {[op |-> "ih_remove", h |-> h, rn |-> a.rn, i |-> a.i, j |-> a.j]
                 : a \in {IhArgs(v, h)}}
GIhGet(v, h) == {[op |-> "ih_get", h |-> h, rn |-> a.rn, i |-> a.i, j |-> a.j]
                 : a \in {IhArgs(v, h)}}
GIhRn(v, h) == {[op |-> "ih_remove_rn", h |-> h, rn |-> a.rn] : a \in {IhArgs(v, h)}}
GIhOrb(v, h) == {[op |-> "ih_remove_orb", h |-> h,
                  ix |-> [x \in 1..R(1..2) |-> R(0..(ScN(v, v.ih[h].bra)-1))]]}
GNewIh(v) ==
    {[op |-> "new_ih", bra |-> b, ket |-> k]
     : b \in {R(1..Len(v.sc))}, k \in {R(1..Len(v.sc))}}
ScList(v) == IF Len(v.sc) = 1 \/ One(3) THEN <<R(1..Len(v.sc))>>
             ELSE IF Len(v.sc) = 2 THEN R({<<1, 2>>, <<2, 1>>})
             ELSE R({<<1, 2, 3>>, <<3, 1>>, <<2, 3, 1>>, <<1, 2>>})
GNewSp(v) ==
    {[op |-> "new_sp", sc |-> s, alien |-> Err(0) /\ One(2),
      ih |-> LET good == {h \in 1..Len(v.ih) : /\ v.ih[h].bra \in Elems(s)
                                              /\ v.ih[h].ket \in Elems(s)}
                 all == 1..Len(v.ih)
                 from == IF Err(0) THEN all ELSE good
             IN IF from = {} THEN <<>> ELSE IF One(4) THEN <<>>
                ELSE IF Cardinality(from) > 1 /\ One(2)
                THEN LET S == {MinOf(from), MaxOf(from)} IN <<MinOf(S), MaxOf(S)>>
                ELSE <<R(from)>>]
     : s \in {IF Err(0) /\ One(4) THEN <<>> ELSE ScList(v)}}
GInit(v, q) == {[op |-> R({"init_eng", "init_pos", "init_hop"}), q |-> q,
                 force |-> One(2)]}

----------------------------------------------------------------------------
(* Which calls are possible now, with weights depending on the profile *)
PcKinds(v, p) ==
    LET n == Len(v.pc[p].orb)
        few == n < 2 \/ HCount(v.pc[p].hop) < 2
        b == Prof \in {"hop", "err"}
    IN <<<<"add_orbital", IF n < 2 THEN 8 ELSE IF n < 5 THEN 2 ELSE 0>>,
         <<"add_hopping", IF n = 0 THEN 0 ELSE IF few THEN 8
                          ELSE IF HCount(v.pc[p].hop) < 12 THEN 4 ELSE 1>>,
         <<"set_orbital", IF n = 0 THEN 0 ELSE 2>>,
         <<"get_orbital", IF b THEN 1 ELSE 0>>,
         <<"remove_orbitals", IF n >= 2 /\ Removable(v, p, 2) THEN 1 ELSE 0>>,
         <<"add_hopping_dict", IF n = 0 THEN 0 ELSE IF b THEN 2 ELSE 1>>,
         <<"get_hopping", IF b THEN 3 ELSE 0>>,
         <<"remove_hopping", IF HCount(v.pc[p].hop) > 2 THEN (IF b THEN 3 ELSE 1)
                             ELSE IF One(5) THEN 1 ELSE 0>>,
         <<"trim_pc", IF n >= 2 /\ Removable(v, p, n - 1) /\ One(3) THEN 1 ELSE 0>>,
         <<"apply_pbc", IF One(2) THEN 1 ELSE 0>>,
         <<"read_pc", 3>>, <<"ham_pc", 1>>>>
GPc(v, p, k, h) ==
    CASE k = "add_orbital" -> GAddOrb(v, p)
      [] k = "add_hopping" -> GAddHop(v, p)
      [] k = "set_orbital" -> GSetOrb(v, p)
      [] k = "get_orbital" -> GGetOrb(v, p)
      [] k = "remove_orbitals" -> GRemOrb(v, p)
      [] k = "add_hopping_dict" -> GAddDict(v, p)
      [] k = "get_hopping" -> GGetHop(v, p)
      [] k = "remove_hopping" -> GRemHop(v, p)
      [] k = "trim_pc" -> {[op |-> "trim_pc", p |-> p]}
      [] k = "apply_pbc" -> GPbc(v, p)
      [] k = "read_pc" -> {[op |-> "read_pc", p |-> p]}
      [] k = "ham_pc" -> {[op |-> "ham_pc", p |-> p,
                           k2 |-> <<R(0..1), R(0..1), R(0..1)>>]}
ScKinds(v, s) ==
    LET big == ScN(v, s) > 3 /\ VacOk(v.sc[s], NPc(v, s))
        free == v.sc[s].mod = NoHop /\ ~IhOnSC(v, s)
        room == ScN(v, s) > 8
        deg == LET T == ScH(v, s)
               IN {i \in 0..(ScN(v, s)-1) : Cardinality({t \in T : t[1] = i}) > 1}
    IN <<<<"add_vac", IF free /\ room THEN 3 ELSE 0>>,
         <<"set_vac", IF free /\ room THEN 2 ELSE 0>>,
         <<"sc_add_hop", IF big /\ SyncErr(v, s) = {} /\ Cardinality(DOMAIN v.sc[s].mod) < 12
                         THEN (IF Prof = "mod" THEN 8 ELSE 2) ELSE 0>>,
         <<"set_posmod", 1>>,
         <<"trim_sc", IF One(4) /\ big /\ SyncErr(v, s) = {} /\ ~IhOnSC(v, s)
                         /\ Cardinality(deg) > 3 THEN 4 ELSE 0>>,
         <<"sc2pc", IF Prof = "ids" THEN 4 ELSE 1>>,
         <<"pc2sc", IF Prof = "ids" THEN 4 ELSE 1>>,
         <<"read_sc", 4>>>>
GSc(v, s, k) ==
    CASE k \in {"add_vac", "set_vac"} -> GVac(v, s, k)
      [] k = "sc_add_hop" -> GModHop(v, s)
      [] k = "set_posmod" -> GPm(v, s)
      [] k = "trim_sc" -> {[op |-> "trim_sc", s |-> s]}
      [] k = "sc2pc" -> GSc2Pc(v, s)
      [] k = "pc2sc" -> GPc2Sc(v, s)
      [] k = "read_sc" -> {[op |-> "read_sc", s |-> s, order |-> R(0..3)]}
IhKinds(v, h) == <<<<"ih_add", 4>>, <<"ih_remove", 1>>, <<"ih_get", 1>>,
                   <<"ih_remove_rn", IF One(2) THEN 1 ELSE 0>>,
                   <<"ih_remove_orb", IF One(2) THEN 1 ELSE 0>>, <<"read_ih", 2>>>>
GIh(v, h, k) ==
    CASE k = "ih_add" -> GIhAdd(v, h)
      [] k = "ih_remove" -> GIhRem(v, h)
      [] k = "ih_get" -> GIhGet(v, h)
      [] k = "ih_remove_rn" -> GIhRn(v, h)
      [] k = "ih_remove_orb" -> GIhOrb(v, h)
      [] k = "read_ih" -> {[op |-> "read_ih", h |-> h]}
SpKinds(v, q) == <<<<"init", 2>>, <<"reset_sp", 1>>, <<"rescale", 2>>, <<"read_sp", 4>>>>
GSp(v, q, k) ==
    CASE k = "init" -> GInit(v, q)
      [] k = "reset_sp" -> {[op |-> "reset_sp", q |-> q]}
      [] k = "rescale" -> {[op |-> "rescale", q |-> q, f |-> R({1, 2, 4, 8})]}
      [] k = "read_sp" -> {[op |-> "read_sp", q |-> q]}

Ready(v) == {p \in 1..Len(v.pc) : v.pc[p].orb # <<>> /\ HCount(v.pc[p].hop) >= 2}
MaxPc == IF Prof \in {"hop", "ids", "expand"} THEN 1 ELSE 2
MaxSc == CASE Prof \in {"hop"} -> 0 [] Prof \in {"mod", "sample"} -> 3 [] OTHER -> 2
Areas(v) ==
    <<<<"new_pc", IF v.pc = <<>> THEN 100 ELSE IF Len(v.pc) < MaxPc /\ Len(v.pc) <= Len(v.sc)
                  THEN 2 ELSE 0>>,
      <<"pc", IF v.pc = <<>> THEN 0 ELSE IF v.sc = <<>> THEN 12
              ELSE IF Prof \in {"ids", "mod", "sample"} THEN 2 ELSE 5>>,
      <<"new_sc", IF Len(v.sc) < MaxSc /\ Ready(v) # {} THEN 3
                  ELSE IF Len(v.sc) < MaxSc /\ v.pc # <<>> /\ Err(0) THEN 1 ELSE 0>>,
      <<"sc", IF v.sc = <<>> THEN 0 ELSE IF Prof \in {"ids", "mod"} THEN 12 ELSE 6>>,
      <<"new_ih", IF v.sc = <<>> \/ Len(v.ih) >= 2 \/ Prof \in {"hop", "ids", "expand"}
                  THEN 0 ELSE 1>>,
      <<"ih", IF v.ih = <<>> \/ (\E s \in 1..Len(v.sc) : ~VacOk(v.sc[s], NPc(v, s)))
              THEN 0 ELSE 4>>,
      <<"new_sp", IF v.sc = <<>> \/ Len(v.sp) >= 2 \/ Prof \in {"hop", "ids"} THEN 0 ELSE 2>>,
      <<"sp", IF v.sp = <<>> THEN 0 ELSE IF Prof = "sample" THEN 14 ELSE 6>>,
      <<"unlock", IF v.sc = <<>> THEN 0 ELSE IF Prof = "lock" THEN 6 ELSE 4>>,
      <<"update", IF v.sc = <<>> THEN 0 ELSE IF Prof = "lock" THEN 4 ELSE 3>>,
      <<"reset", IF v.pc # <<>> /\ One(3) THEN 1 ELSE 0>>>>
RandomOp(v, h) ==
    LET area == Pick(Areas(v)) IN
    UNION {CASE a = "new_pc" -> {[op |-> "new_pc", lat |-> R(SkewLats), org |-> R(Orgs)]}
      [] a = "pc" -> UNION {UNION {GPc(v, p, k, h) : k \in {Pick(PcKinds(v, p))}}
                            : p \in {R(1..Len(v.pc))}}
      [] a = "new_sc" -> UNION {GNewSC(v, p)
                                : p \in {IF Ready(v) = {} THEN R(1..Len(v.pc))
                                         ELSE R(Ready(v))}}
      [] a = "sc" -> UNION {UNION {GSc(v, s, k) : k \in {Pick(ScKinds(v, s))}}
                            : s \in {R(1..Len(v.sc))}}
      [] a = "new_ih" -> GNewIh(v)
      [] a = "ih" -> UNION {UNION {GIh(v, x, k) : k \in {Pick(IhKinds(v, x))}}
                            : x \in {R(1..Len(v.ih))}}
      [] a = "new_sp" -> GNewSp(v)
      [] a = "sp" -> UNION {UNION {GSp(v, q, k) : k \in {Pick(SpKinds(v, q))}}
                            : q \in {R(1..Len(v.sp))}}
      [] a = "unlock" -> GUnlock(v)
      [] a = "update" -> GUpdate(v)
      [] a = "reset" -> UNION {IF Halvings(h) < 2 /\ Diag(v.pc[p].lat)
                               THEN GReset(v, p) ELSE {[op |-> "read_pc", p |-> p]}
                               : p \in {R(1..Len(v.pc))}}
           : a \in {area}}

(* a drawn call is skipped if it would leave the domain the specification   *)
(* describes: an emptied supercell, or indices that dangle                   *)
Sane(v) == /\ \A s \in 1..Len(v.sc) : /\ ScN(v, s) >= 1
                                      /\ \A d \in 1..3 :
                                           v.sc[s].dim[d] >= MinDim(v.pc[v.sc[s].pc], d)
           /\ \A h \in 1..Len(v.ih) : \A k \in DOMAIN v.ih[h].hop :
                 /\ k[4] < ScN(v, v.ih[h].bra) /\ k[5] < ScN(v, v.ih[h].ket)
           /\ \A s \in 1..Len(v.sc) : \A k \in DOMAIN v.sc[s].mod :
                 k[4] < ScN(v, s) /\ k[5] < ScN(v, s)

Init == w = EmptyWorld /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in RandomOp(w, hist) :
             \E r \in {Step(w, o)} :
               IF Sane(r.w) THEN /\ w' = r.w
                                 /\ hist' = Append(hist, o)
               ELSE UNCHANGED w /\ hist' = Append(hist, [op |-> "read_pc", p |-> 1])
        /\ IF Len(hist') = Depth
           THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.SIMOUT) ELSE TRUE
Good == WorldOk(w)
=============================================================================
