------------------------------ MODULE MCNeighbor ------------------------------
(* Exhaustive on small cells: neighbours are symmetric under exchange of bra  *)
(* and ket, grow with cutoff and range, and shells have equal lengths.        *)
EXTENDS Neighbor
CONSTANT Big
VARIABLE x
Pts == IF Big THEN {<<a, b, d>> : a \in {-24, 0, 24, 48}, b \in {-24, 0, 24}, d \in {0, 24}}
       ELSE {<<a, b, 0>> : a \in {-24, 0, 48}, b \in {0, 24}}
Lats == {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<1, -1, 0>>, <<0, 0, 2>>>>,
         <<<<2, 0, 0>>, <<1, 2, 0>>, <<0, -1, 1>>>>}
Boxes == {<<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>}
Init == x \in [a : Pts, b : Pts, q : Pts, lat : Lats, box : Boxes, d : {1152, 2304}]
Next == UNCHANGED x
Inv == LET pb == <<x.a, x.b>>
           pk == <<x.q>>
           A == Neighbors(pb, pk, x.lat, x.box, x.d)
           B == Neighbors(pk, pb, x.lat, x.box, x.d)
           flip(t) == <<-t[1], -t[2], -t[3], t[5], t[4]>>
       IN /\ B = {flip(t) : t \in A}
          /\ \A t \in A : Rij(pk, pb, x.lat, flip(t)) = VNeg(Rij(pb, pk, x.lat, t))
          /\ A \subseteq Neighbors(pb, pk, x.lat, x.box, x.d + 2304)
          /\ A \subseteq Neighbors(pb, pk, x.lat, <<1, 1, 1>>, x.d)
          /\ \A t \in Neighbors(pb, pk, x.lat, <<1, 1, 1>>, x.d) :
                (<<t[1], t[2], t[3]>> \in RnBox(x.box)) => t \in A
=============================================================================
