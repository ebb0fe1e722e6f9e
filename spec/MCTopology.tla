------------------------------ MODULE MCTopology ------------------------------
(* Design checks on dimerised two-orbital chains (textbook eigenstates):      *)
(*  - the Wilson loop eigenvalues do not depend on the phases of the states,  *)
(*    nor on the k-point at which the loop starts, nor on whether the last    *)
(*    point repeats the first one;                                            *)
(*  - a chain with only in-cell bonds has phase 0, one with only inter-cell   *)
(*    bonds has phase pi; all bands together have phase 0;                    *)
(*  - the parity of the crossing number only depends on the two ends;         *)
(*  - spin expectation values sum to zero over a complete set, form a vector  *)
(*    of length at most one, and the two orbital orders agree.                *)
EXTENDS Topology
CONSTANT Big
VARIABLE x

U4 == <<<<ONE, 0>>, <<0, ONE>>, <<-ONE, 0>>, <<0, -ONE>>>>
R2 == 707107
NL == IF Big THEN 6 ELSE 4
Loops == {[kind |-> "loop", cell |-> ce, ph |-> p, sh |-> s, cl |-> cc] :
            ce \in BOOLEAN, p \in [1..NL -> 1..3],
            s \in 0..(NL - 1), cc \in BOOLEAN}
Paths == {[kind |-> "path", p |-> p] : p \in [1..(IF Big THEN 6 ELSE 5) -> {-3, -1, 1, 2}]}
Spins == {[kind |-> "spin", a |-> a, b |-> b, g |-> g] :
            a \in 0..4, b \in 0..4, g \in 1..4}
Init == x \in Loops \cup Paths \cup Spins
Next == UNCHANGED x

(* lower and upper state of the chain at k = i / NL turns                      *)
W(cell, i) == IF cell THEN CTurn(<<1, 0>>, (720 \div NL) * (i % NL)) ELSE <<ONE, 0>>
Lo(cell, i) == <<CScale(-R2, W(cell, i)), <<R2, 0>>>>
Up(cell, i) == <<CScale(R2, W(cell, i)), <<R2, 0>>>>
Phased(v, ph) == [j \in 1..Len(v) |-> CMul(U4[ph], v[j])]
Ring(q, f) == LET n == IF q.cl THEN NL + 1 ELSE NL
              IN [m \in 1..n |-> LET i == (q.sh + m - 1) % NL IN
                    <<Phased(Lo(q.cell, i), q.ph[i + 1]), Phased(Up(q.cell, i), f)>>]
LoopInv ==
    LET one == Wilson(Ring(x, 1), 1)
        two == Wilson(Ring(x, 2), 2)
        r == CAbs2(one[1][1])
    IN /\ IsArg(one[1][1], <<IF x.cell THEN -ONE ELSE ONE, 0>>, 60)
       /\ r > 10000
       /\ IsSpectrum(two, <<<<ONE, 0>>, <<ONE, 0>>>>, 120)
       /\ ArgsMatch(<<one[1][1]>>, <<<<IF x.cell THEN -ONE ELSE ONE, 0>>>>, 60)
       /\ ~ArgsMatch(<<one[1][1]>>, <<<<IF x.cell THEN ONE ELSE -ONE, 0>>>>, 60)
       /\ ~ArgsMatch(<<one[1][1]>>, <<<<0, ONE>>>>, 60)
PathInv == LET P == [i \in 1..Len(x.p) |-> <<x.p[i], -x.p[i]>>]
               One1 == [i \in 1..Len(x.p) |-> <<x.p[i]>>]
               a == x.p[1]
               b == x.p[Len(x.p)]
           IN /\ (Crossings(One1, 0) % 2 = 1) <=> (a * b < 0)
              /\ Crossings(P, 0) = 2 * Crossings(One1, 0)
              /\ Crossings(One1, 5) = 0
Cs == <<ONE, 866025, 707107, 500000, 0>>
Sn == <<0, 500000, 707107, 866025, ONE>>
SpinInv ==
    LET u == <<Cs[x.a + 1], 0>>
        d == CScale(Sn[x.a + 1], U4[x.g])
        v1 == <<u, d>>
        v2 == <<<<-Sn[x.a + 1], 0>>, CScale(Cs[x.a + 1], U4[x.g])>>
        o1 == <<CScale(Cs[x.b + 1], u), CScale(Cs[x.b + 1], d),
                CScale(Sn[x.b + 1], u), CScale(Sn[x.b + 1], d)>>     \* orbital major
        s1 == <<o1[1], o1[3], o1[2], o1[4]>>                          \* spin major
        N2(v, m) == FMul(SpinExp(v, "x", m), SpinExp(v, "x", m))
                    + FMul(SpinExp(v, "y", m), SpinExp(v, "y", m))
                    + FMul(SpinExp(v, "z", m), SpinExp(v, "z", m))
    IN /\ \A c1 \in {"x", "y", "z"} :
            /\ Near(SpinExp(v1, c1, TRUE) + SpinExp(v2, c1, TRUE), 0, 10)
            /\ Near(SpinExp(v1, c1, TRUE), SpinExp(v1, c1, FALSE), 0)
            /\ Near(SpinExp(o1, c1, FALSE), SpinExp(s1, c1, TRUE), 5)
            /\ Near(SpinExp(o1, c1, FALSE), SpinExp(v1, c1, TRUE), 20)
       /\ Near(N2(v1, TRUE), ONE, 30)
       /\ SpinExp(<<<<R2, 0>>, <<R2, 0>>>>, "x", TRUE) > 999990
       /\ SpinExp(<<<<R2, 0>>, <<0, R2>>>>, "y", TRUE) > 999990
       /\ SpinExp(<<<<ONE, 0>>, CZero>>, "z", TRUE) > 999990
Inv == CASE x.kind = "loop" -> LoopInv
         [] x.kind = "path" -> PathInv
         [] x.kind = "spin" -> SpinInv
===============================================================================
