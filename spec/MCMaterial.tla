------------------------------ MODULE MCMaterial ------------------------------
(* The point groups: order, closure, inverses, inversion; relatedness is an    *)
(* equivalence; the pi band is invariant under the group of its lattice and    *)
(* folding respects reciprocal lattice vectors.                                *)
EXTENDS Material
CONSTANT Big
VARIABLE x

Kd == IF Big THEN 12 ELSE 6
Init == x \in [kind : {"hex60", "hex120", "rect"}, a : 0..(Kd - 1), b : 0..(Kd - 1)]
Next == UNCHANGED x
Mul(m, p) == <<m[1] * p[1] + m[2] * p[3], m[1] * p[2] + m[2] * p[4],
               m[3] * p[1] + m[4] * p[3], m[3] * p[2] + m[4] * p[4]>>
G == Group[x.kind]
K == <<x.a, x.b>>
InvOrder == Cardinality(G) = IF x.kind = "rect" THEN 4 ELSE 12
InvClosed == \A m, p \in G : Mul(m, p) \in G
InvInv == \A m \in G : \E p \in G : Mul(m, p) = <<1, 0, 0, 1>>
InvMinus == <<-1, 0, 0, -1>> \in G
InvEquiv == /\ Related(x.kind, K, K, Kd)
            /\ \A m, p \in G : Related(x.kind, Act(m, K), Act(p, K), Kd)
            /\ \A d \in {<<Kd, 0>>, <<0, -Kd>>} :
                 Related(x.kind, K, <<K[1] + d[1], K[2] + d[2]>>, Kd)
InvPi == x.kind = "hex60" => \A m \in G : Near(PiBand(K, Kd), PiBand(Act(m, K), Kd), 3000)
InvPiHex == LET p == PiBand(K, Kd) IN p >= 0 /\ p <= 3 * ONE + 2
InvFold == \A d \in {<<Kd, 0>>, <<0, Kd>>} :
              LET f == FoldTo(K)
                  g == FoldTo(<<K[1] + d[1], K[2] + d[2]>>)
              IN (f[1] - g[1]) % Kd = 0 /\ (f[2] - g[2]) % Kd = 0
Inv == InvOrder /\ InvClosed /\ InvInv /\ InvMinus /\ InvEquiv /\ InvPi /\ InvPiHex /\ InvFold
===============================================================================
