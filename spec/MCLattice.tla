------------------------------ MODULE MCLattice ------------------------------
(* Exhaustive checks of the lattice design on all small integer lattices:   *)
(* a_i . b_j = 2 pi delta_ij, conversion of coordinates is inverse to its   *)
(* counterpart, areas and volumes are consistent, the k-mesh enumerates     *)
(* each grid point once, the k-path has the announced length and contains   *)
(* the given points at the announced indices.                               *)
EXTENDS Lattice
CONSTANT Big
VARIABLE x
R == IF Big THEN -1..2 ELSE -1..1
Rows == {<<a, b, d>> : a \in R, b \in R, d \in {0, 1}}
Lats == {<<u, v, w>> : u \in Rows, v \in Rows, w \in Rows}
Init == \/ \E L \in Lats : Det3(L) # 0 /\ x = [t |-> "lat", L |-> L]
        \/ \E n \in (1..3) \X (1..4) \X (1..3) : x = [t |-> "mesh", n |-> n]
        \/ \E h \in {<<0,0,0>>, <<6,0,0>>, <<4,8,-3>>}, g \in {<<6,6,0>>, <<1,2,3>>},
              i \in {1, 2, 5}, j \in {1, 3, 4} :
              x = [t |-> "path", hs |-> <<h, g, h>>, num |-> <<i, j>>]
Next == UNCHANGED x
Inv ==
    CASE x.t = "lat" ->
        LET L == x.L IN
        /\ \A i \in 1..3, j \in 1..3 : Dot(L[i], RecipDet(L)[j]) = IF i = j THEN Volume(L) ELSE 0
        /\ \A p \in {<<1, 0, 0>>, <<3, -5, 7>>} :
              FracDet(L, VMat(p, L)) = VScale(Det3(L), p)
        /\ \A d \in 1..3 : Area2(L, d) > 0
        /\ KLen2(L, <<1, 0, 0>>) = Area2(L, 1)
      [] x.t = "mesh" ->
        LET K == KMesh(x.n) IN
        /\ Len(K) = x.n[1] * x.n[2] * x.n[3]
        /\ Cardinality(Elems(K)) = Len(K)
        /\ \A i \in 1..Len(K), d \in 1..3 : K[i][d] \in 0..(x.n[d] - 1)
        /\ \A i \in 1..(Len(K)-1) : ((K[i][1] * 10) + K[i][2]) * 10 + K[i][3]
                                     < ((K[i+1][1] * 10) + K[i+1][2]) * 10 + K[i+1][3]
      [] OTHER ->
        LET P == KPath(x.hs, x.num)
            I == HsIndex(x.num)
        IN /\ Len(P) = SumSeq(x.num) + 1
           /\ \A i \in 1..3 : P[I[i] + 1] = VScale(60, x.hs[i])
=============================================================================
