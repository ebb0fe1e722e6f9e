-------------------------------- MODULE MCHam --------------------------------
(* Exhaustive checks of the Hamiltonian design.                             *)
(*  ham: for every pair of hopping terms (in either orientation) on a two-  *)
(*       orbital cell, every k on a grid: H(k) is Hermitian, storing the    *)
(*       conjugate term instead changes nothing, and the two conventions    *)
(*       are related by the gauge exp(2 pi i k.(r_j - r_i)).                *)
(*  mag: for every triangle and rectangle on a grid the Peierls phases add  *)
(*       up to the same flux in all gauges: b * (twice the area), and the   *)
(*       reversed bond has the opposite phase.                              *)
EXTENDS Ham
CONSTANTS Part, Big
VARIABLE x

Orb == <<[p |-> <<0, 0, 0>>, e |-> 1], [p |-> <<16, -12, 24>>, e |-> -2]>>
Cell(h) == [lat |-> <<<<2, 1, 0>>, <<-1, 1, 0>>, <<0, 0, 1>>>>, org |-> <<0, 0, 0>>,
            orb |-> Orb, hop |-> h]
RNs == IF Big THEN {<<a, b, z>> : a \in -1..1, b \in -1..1, z \in {0, 1}}
       ELSE {<<a, b, 0>> : a \in -1..1, b \in {0, 1}}
Keys == {HKey(r, i, j) : r \in RNs, i \in 0..1, j \in 0..1}
Vals == {<<2, 0>>, <<1, -3>>}
Ks == IF Big THEN {<<a, b, z>> : a \in 0..3, b \in {0, 1, 5}, z \in {0, 3}}
      ELSE {<<a, b, 1>> : a \in 0..2, b \in {0, 5}}
HamInit == x \in [k1 : {k \in Keys : k # HConj(k)}, k2 : {k \in Keys : k # HConj(k)},
                  v : Vals, k : Ks]
HamInv ==
    LET pc == Cell(HPut(HPut(NoHop, x.k1, <<3, 1>>), x.k2, x.v))
        qc == Cell(HPut(HPut(NoHop, HConj(x.k1), <<3, -1>>), HConj(x.k2), CConj(x.v)))
        H1 == HamPc(pc, 1, x.k, 12)
        H2 == HamPc(pc, 2, x.k, 12)
        m(i, j) == (15 * Dot(x.k, VSub(Orb[j].p, Orb[i].p))) \div 12
        \* rotate the rounded element by a table phase
        rot(u, t) == LET c == Cos720(t) \div 100
                         s == Sin720(t) \div 100
                     IN <<(u[1] \div 100) * c - (u[2] \div 100) * s,
                          (u[1] \div 100) * s + (u[2] \div 100) * c>>
    IN /\ HClosed(pc.hop) /\ PcTurnOk(pc, 1, x.k, 12)
       /\ Hermitian(H1, 2) /\ Hermitian(H2, 2)
       /\ qc.hop = pc.hop
       /\ \A i \in 1..2, j \in 1..2 :
             CNear(rot(H2[i][j], m(i, j)),
                   <<(H1[i][j][1] \div 100) * 10000, (H1[i][j][2] \div 100) * 10000>>,
                   12000000 \div 10)

Pts == IF Big THEN {<<4*a, 4*b, 0>> : a \in -3..4, b \in -2..4}
       ELSE {<<4*a, 4*b, 0>> : a \in -1..2, b \in -1..1}
MagInit == x \in [p : Pts, q : Pts, r : Pts, s : Pts]
Bond(pos, i, j) == LET d == VSub(pos[j+1], pos[i+1]) IN <<i, j, d[1], d[2], d[3]>>
MagInv ==
    LET pos == <<x.p, x.q, x.r, x.s>>
        ph(i, j, g) == MagTurn(pos, Bond(pos, i, j), 2, g)
        loop(g) == ph(0, 1, g) + ph(1, 2, g) + ph(2, 3, g) + ph(3, 0, g)
        area2 == (x.p[1]*x.q[2] - x.q[1]*x.p[2]) + (x.q[1]*x.r[2] - x.r[1]*x.q[2])
                 + (x.r[1]*x.s[2] - x.s[1]*x.r[2]) + (x.s[1]*x.p[2] - x.p[1]*x.s[2])
    IN /\ \A g \in 0..2 : loop(g) = -2 * (area2 \div 16)
       /\ \A g \in 0..2 : ph(0, 1, g) = -ph(1, 0, g)

Init == IF Part = "ham" THEN HamInit ELSE MagInit
Next == UNCHANGED x
Inv == IF Part = "ham" THEN HamInv ELSE MagInv
=============================================================================
