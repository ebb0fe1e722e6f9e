------------------------------- MODULE Expand -------------------------------
(* Supercell geometry and hopping expansion.                                *)
(*                                                                          *)
(* pc : [orb, hop, lat, org]  lat/org in nm (integers), orb[i].p in 1/48    *)
(* sc : [dim, pbc, vac, mod, pm]                                            *)
(* Cartesian positions are integers in units of nm/48.                      *)
EXTENDS Hop

Cells(dim) == {<<a, b, d>> : a \in 0..(dim[1]-1), b \in 0..(dim[2]-1),
                             d \in 0..(dim[3]-1)}
Prod3(dim) == dim[1] * dim[2] * dim[3]
RawId(id, dim, n) == ((id[1] * dim[2] + id[2]) * dim[3] + id[3]) * n + id[4]
UnRaw(r, dim, n) ==
    LET o == r % n
        q == r \div n
        z == q % dim[3]
        y == (q \div dim[3]) % dim[2]
        x == q \div (dim[3] * dim[2])
    IN <<x, y, z, o>>
IdPcOk(id, dim, n) == /\ id[1] \in 0..(dim[1]-1) /\ id[2] \in 0..(dim[2]-1)
                      /\ id[3] \in 0..(dim[3]-1) /\ id[4] \in 0..(n-1)
NumOrbSC(sc, n) == n * Prod3(sc.dim) - Cardinality(sc.vac)

(* the surviving orbitals, in lexicographic order of <<ia, ib, ic, io>> *)
OrbIds(sc, n) ==
    LET total == n * Prod3(sc.dim)
        vr == {RawId(v, sc.dim, n) : v \in sc.vac}
        keep == {r \in 0..(total - 1) : r \notin vr}
        RECURSIVE Fill(_, _)
        Fill(r, acc) == IF r = total THEN acc
                        ELSE Fill(r + 1, IF r \in vr THEN acc
                                         ELSE Append(acc, UnRaw(r, sc.dim, n)))
    IN Fill(0, <<>>)

(* index of a surviving orbital *)
ScId(id, sc, n) ==
    LET r == RawId(id, sc.dim, n)
    IN r - Cardinality({v \in sc.vac : RawId(v, sc.dim, n) < r})

ScLat(sc, pc) == <<VScale(sc.dim[1], pc.lat[1]), VScale(sc.dim[2], pc.lat[2]),
                   VScale(sc.dim[3], pc.lat[3])>>

(* Cartesian position (nm/48) of an orbital given in pc representation *)
BarePos(id, pc) ==
    VAdd(VMat(VAdd(VScale(48, <<id[1], id[2], id[3]>>), pc.orb[id[4]+1].p),
              pc.lat),
         VScale(48, pc.org))

(* The position modifiers used by the drivers. pm = 0: none.                *)
(* pm = 1: z += 5/48 nm for even supercell indices; pm = 2: x += 2 y.       *)
PosMod(pm, n, p) == CASE pm = 0 -> p
                      [] pm = 1 -> IF n % 2 = 0 THEN <<p[1], p[2], p[3] + 5>>
                                   ELSE p
                      [] pm = 2 -> <<p[1] + 2 * p[2], p[2], p[3]>>

ScPos(sc, pc, ids) == [n \in 1..Len(ids) |->
                          PosMod(sc.pm, n - 1, BarePos(ids[n], pc))]
ScEng(pc, ids) == [n \in 1..Len(ids) |-> pc.orb[ids[n][4] + 1].e]

(* Expansion of the primitive-cell hoppings over the supercell: the closure *)
(* as a set of <<i, j, re, im, dx, dy, dz>>.                                *)
TConj(t) == <<t[2], t[1], t[3], -t[4], -t[5], -t[6], -t[7]>>
BareHop(sc, pc, ids, pos) ==
    LET n == Len(pc.orb)
        L == ScLat(sc, pc)
        byorb(o) == {k \in DOMAIN pc.hop : k[4] = o}
        idx == [x \in {ids[m] : m \in 1..Len(ids)} |-> ScId(x, sc, n)]
        tgt(id, k) == <<id[1] + k[1], id[2] + k[2], id[3] + k[3]>>
        ok(id, k) == LET t == tgt(id, k)
                         w == <<t[1] % sc.dim[1], t[2] % sc.dim[2],
                                t[3] % sc.dim[3], k[5]>>
                     IN /\ \A d \in 1..3 : sc.pbc[d] \/ t[d] \in 0..(sc.dim[d]-1)
                        /\ w \notin sc.vac
        term(id, k) ==
            LET t == tgt(id, k)
                w == <<t[1] % sc.dim[1], t[2] % sc.dim[2],
                       t[3] % sc.dim[3], k[5]>>
                s == <<t[1] \div sc.dim[1], t[2] \div sc.dim[2],
                       t[3] \div sc.dim[3]>>
                i == idx[id]
                j == idx[w]
                d == VSub(VAdd(pos[j+1], VScale(48, VMat(s, L))), pos[i+1])
            IN <<i, j, pc.hop[k][1], pc.hop[k][2], d[1], d[2], d[3]>>
    IN UNION {{term(ids[m], k) : k \in {q \in byorb(ids[m][4]) : ok(ids[m], q)}}
              : m \in 1..Len(ids)}

(* Modifier terms overwrite every term between the same two orbitals,       *)
(* whichever orientation is stored, or are appended if there is none.       *)
ModHop(sc, pc, pos) ==
    LET L == ScLat(sc, pc) IN
    {LET i == k[4]
         j == k[5]
         d == VSub(VAdd(pos[j+1], VScale(48, VMat(HRn(k), L))), pos[i+1])
     IN <<i, j, sc.mod[k][1], sc.mod[k][2], d[1], d[2], d[3]>>
     : k \in DOMAIN sc.mod}
ScHop(sc, pc, ids, pos) ==
    LET bare == BareHop(sc, pc, ids, pos)
        md == ModHop(sc, pc, pos)
        pairs == {<<t[1], t[2]>> : t \in md}
    IN {t \in bare : <<t[1], t[2]>> \notin pairs} \cup md

(* A recorded half list represents the closed set T *)
THalf(list, T) ==
    LET S == {list[n] : n \in 1..Len(list)}
        C == {TConj(t) : t \in S}
    IN /\ Cardinality(S) = Len(list)
       /\ S \cap C = {}
       /\ S \cup C = T

(* the same if num entries stand for fewer than num different terms *)
THalfNum(list, T, num) ==
    IF 2 * num = Cardinality(T) THEN THalf(list, T)
    ELSE LET S == {list[n] : n \in 1..Len(list)}
         IN Len(list) = num /\ S \cup {TConj(t) : t \in S} = T

MinDim(pc, d) == 2 * MaxOf({Abs(k[d]) : k \in DOMAIN pc.hop} \cup {0}) + 1
=============================================================================
