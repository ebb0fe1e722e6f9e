-------------------------------- MODULE Material --------------------------------
(* Symmetry of the ready-made materials. A k-point is a pair of numerators over *)
(* kd; the point group of the lattice acts on it by integer matrices that keep  *)
(* the metric of the reciprocal lattice.                                        *)
EXTENDS Fx

Mats2 == [1..4 -> -1..1]
Det2(m) == m[1] * m[4] - m[2] * m[3]
(* metric <<g11, g12, g22>>: M g M^T                                            *)
Conj2(m, g) ==
    LET b(p, q, r, s) == p * r * g[1] + (p * s + q * r) * g[2] + q * s * g[3]
    IN <<b(m[1], m[2], m[1], m[2]), b(m[1], m[2], m[3], m[4]), b(m[3], m[4], m[3], m[4])>>
Metric(kind) == CASE kind = "hex60" -> <<2, -1, 2>> [] kind = "hex120" -> <<2, 1, 2>>
                  [] OTHER -> <<1, 0, 2>>
GroupOf(kind) == {m \in Mats2 : Det2(m) \in {1, -1} /\ Conj2(m, Metric(kind)) = Metric(kind)}
Group == TLCEval([kind \in {"hex60", "hex120", "rect"} |-> GroupOf(kind)])
Act(m, k) == <<k[1] * m[1] + k[2] * m[3], k[1] * m[2] + k[2] * m[4]>>
(* k and q are related by a symmetry and a reciprocal lattice vector             *)
Related(kind, k, q, kd) == \E m \in Group[kind] : LET a == Act(m, k) IN
                              (a[1] - q[1]) % kd = 0 /\ (a[2] - q[2]) % kd = 0
(* invariant under inversion of k (time reversal)                               *)
Invariant(k, kd) == (2 * k[1]) % kd = 0 /\ (2 * k[2]) % kd = 0

Mat == [diamond |-> [n |-> 2, kind |-> "hex60", soc |-> FALSE, tol |-> 5],
        rect |-> [n |-> 4, kind |-> "rect", soc |-> FALSE, tol |-> 5],
        reshaped |-> [n |-> 4, kind |-> "rect", soc |-> FALSE, tol |-> 5],
        sp |-> [n |-> 8, kind |-> "hex60", soc |-> FALSE, tol |-> 5],
        qsh |-> [n |-> 4, kind |-> "hex60", soc |-> TRUE, tol |-> 5],
        normal |-> [n |-> 4, kind |-> "hex60", soc |-> TRUE, tol |-> 5],
        phosphorene |-> [n |-> 4, kind |-> "rect", soc |-> FALSE, tol |-> 5],
        antimonene |-> [n |-> 6, kind |-> "hex60", soc |-> FALSE, tol |-> 5],
        antimonene_soc |-> [n |-> 12, kind |-> "hex60", soc |-> TRUE, tol |-> 60],
        mos2_soc |-> [n |-> 22, kind |-> "hex120", soc |-> TRUE, tol |-> 150],
        MoS2 |-> [n |-> 11, kind |-> "hex60", soc |-> FALSE, tol |-> 5],
        MoSe2 |-> [n |-> 11, kind |-> "hex60", soc |-> FALSE, tol |-> 5],
        WS2 |-> [n |-> 11, kind |-> "hex60", soc |-> FALSE, tol |-> 5],
        WSe2 |-> [n |-> 11, kind |-> "hex60", soc |-> FALSE, tol |-> 5]]
(* blocks of orbitals on sites that a symmetry of the crystal exchanges: together *)
(* with time reversal every one of them sees the same local density of states   *)
Orb(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Sites(mat) ==
    CASE mat = "diamond" -> << <<1>>, <<2>> >>
      [] mat \in {"rect", "reshaped", "phosphorene"} -> << <<1>>, <<2>>, <<3>>, <<4>> >>
      [] mat = "sp" -> << Orb(1, 4), Orb(5, 8) >>
      [] mat = "antimonene" -> << Orb(1, 3), Orb(4, 6) >>
      [] mat = "antimonene_soc" -> << Orb(1, 6), Orb(7, 12) >>
      [] mat = "mos2_soc" -> << Orb(6, 8) \o Orb(17, 19), Orb(9, 11) \o Orb(20, 22) >>
      [] mat \in {"qsh", "normal"} -> <<>>
      [] OTHER -> << Orb(6, 8), Orb(9, 11) >>
RECURSIVE SumAt(_, _)
SumAt(m, block) == IF block = <<>> THEN 0 ELSE m[Head(block)] + SumAt(m, Tail(block))
(* |1 + exp(2 pi i k1) + exp(2 pi i k2)|                                        *)
PiBand(k, kd) == LET f == 720 \div kd
                     s == 3 * ONE + 2 * (Cos720(f * k[1]) + Cos720(f * k[2]) + Cos720(f * (k[1] - k[2])))
                 IN IF s <= 0 THEN 0 ELSE FSqrt(s)
(* the rectangular cell of graphene holds two primitive cells: k = (k1, 2 k2 - k1)*)
(* folds (k1, k2) and (k1, k2 + 1/2)                                            *)
FoldTo(k) == <<k[1], 2 * k[2] - k[1]>>
===============================================================================
