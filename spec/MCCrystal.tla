------------------------------ MODULE MCCrystal ------------------------------
(* Exhaustive: the explicitly constructed extended cell denotes the same    *)
(* crystal for all small cells and dimensions, two extensions compose, and  *)
(* dropping or altering any one term of the result is noticed.              *)
EXTENDS Crystal
CONSTANT Big
VARIABLE x
Orbs == <<[p |-> <<0, 12, 0>>, e |-> 1, lab |-> "u"],
          [p |-> <<60, -8, 24>>, e |-> -2, lab |-> "v"]>>
L0 == <<<<1, 1, 0>>, <<1, -1, 0>>, <<0, 1, 2>>>>
RNs == IF Big THEN {<<a, b, d>> : a \in {-2, -1, 0, 1}, b \in -1..1, d \in 0..1}
       ELSE {<<a, b, 0>> : a \in {-2, 0, 1}, b \in -1..1}
Keys == {HKey(r, i, j) : r \in RNs, i \in 0..1, j \in 0..1}
Good == {k \in Keys : k # HConj(k)}
Dims == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 3, 1>>, <<2, 2, 1>>, <<2, 1, 2>>}
Firsts == IF Big THEN Good ELSE {k \in Good : k[4] = 0 /\ k[2] = 1}
Init == x \in [k1 : Firsts, k2 : Good, d : Dims, e : IF Big THEN {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 2, 1>>}
                       ELSE {<<2, 1, 1>>}]
Next == UNCHANGED x
P == [lat |-> L0, org |-> <<1, 0, -1>>, orb |-> Orbs,
      hop |-> HPut(HPut(NoHop, x.k1, <<2, 1>>), x.k2, <<-1, 3>>)]
(* a Q-record read back as a P-record needs unique labels: number them *)
Inv == LET Q == ExtCell(P, x.d)
           dd == <<x.d[1]*x.e[1], x.d[2]*x.e[2], x.d[3]*x.e[3]>>
           Q2 == ExtCell(P, dd)
           kk == CHOOSE k \in DOMAIN Q.hop : TRUE
       IN /\ CrystalBad(P, Q, Diag(x.d)) = {}
          /\ CrystalBad(P, Q2, MatMul(Diag(x.e), Diag(x.d))) = {}
          /\ HClosed(Q.hop) /\ HNoDiag(Q.hop)
          /\ HCount(Q.hop) = HCount(P.hop) * x.d[1] * x.d[2] * x.d[3]
          /\ CrystalBad(P, [Q EXCEPT !.hop = HDel(Q.hop, kk)], Diag(x.d)) # {}
          /\ CrystalBad(P, [Q EXCEPT !.hop = HPut(Q.hop, kk, <<7, 7>>)], Diag(x.d)) # {}
          /\ (x.d = <<2, 1, 1>> =>
                CrystalBad(P, [Q EXCEPT !.orb[3] = Q.orb[1]], Diag(x.d)) # {})
=============================================================================
