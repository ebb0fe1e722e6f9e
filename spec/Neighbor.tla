------------------------------- MODULE Neighbor -------------------------------
(* Neighbours between orbitals of the home cell of one model and nearby cells *)
(* of another. Positions are integers in nm/48, lattices integers in nm.      *)
EXTENDS Ham

RnBox(m) == {<<x, y, z>> : x \in -m[1]..m[1], y \in -m[2]..m[2], z \in -m[3]..m[3]}
N2(v) == Dot(v, v)
(* all <<rn, i, j>> with 0 < |r_j + R - r_i|^2 <= d2, and the displacement *)
Rij(pb, pk, lat, t) == VSub(VAdd(pk[t[5]+1], VScale(48, VMat(<<t[1], t[2], t[3]>>, lat))),
                            pb[t[4]+1])
Neighbors(pb, pk, lat, box, d2) ==
    {t \in {<<rn[1], rn[2], rn[3], i, j>> : rn \in RnBox(box),
                i \in 0..(Len(pb)-1), j \in 0..(Len(pk)-1)} :
        LET d == N2(Rij(pb, pk, lat, t)) IN d > 0 /\ d <= d2}
=============================================================================
