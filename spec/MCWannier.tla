------------------------------- MODULE MCWannier -------------------------------
(* The elements of the files are consumed one by one in any order. Whatever    *)
(* the order, the result is the H(R) stated directly; the sum over all cells   *)
(* (the Hamiltonian at k = 0) is that of the file without translations; the    *)
(* result is Hermitian; equal translations onto one cell add up.               *)
EXTENDS Wannier
CONSTANT Big
VARIABLES F, ws, todo, acc

U == 12
(* two conjugate cells and the home cell, one or two orbitals                  *)
Ts == {<<<<0, 0, 0>>>>, <<<<0, 0, 0>>, <<1, 0, 0>>>>, <<<<-1, 0, 0>>>>,
       <<<<0, 0, 0>>, <<-2, 0, 0>>>>}
NegT(t) == [m \in 1..Len(t) |-> VNeg(t[m])]
Mk(nw, nd0, nd1, t, t01, v) ==
    LET Rs == <<<<0, 0, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>>>
        e(n, i, j) == IF n = 1 THEN (IF i = j THEN <<U * v, 0>>
                                     ELSE <<U * 2, IF i < j THEN U ELSE -U>>)
                      ELSE IF n = 2 THEN <<U * (i + 2 * j), U * (v + i)>>
                      ELSE <<U * (j + 2 * i), -U * (v + j)>>
        w(n, i, j) == IF n = 1 THEN (IF i = j THEN NoShift
                                     ELSE IF i < j THEN t01 ELSE NegT(t01))
                      ELSE IF n = 2 THEN t ELSE NegT(t)
    IN [nw |-> nw, R |-> Rs, nd |-> <<nd0, nd1, nd1>>,
        h |-> [n \in 1..3 |-> [i \in 1..nw |-> [j \in 1..nw |-> e(n, i, j)]]],
        ws |-> [n \in 1..3 |-> [i \in 1..nw |-> [j \in 1..nw |-> w(n, i, j)]]]]
Inst == {Mk(nw, nd0, nd1, t, t01, v) :
            nw \in (IF Big THEN {1, 2} ELSE {1}), nd0 \in {1, 2}, nd1 \in {1, 2, 3},
            t \in Ts, t01 \in Ts, v \in {1, 3}}
Init == /\ F \in Inst
        /\ ws \in BOOLEAN
        /\ todo = Elements(F)
        /\ acc = NoHop
Next == \E x \in todo : /\ todo' = todo \ {x}
                        /\ acc' = AddElement(acc, F, ws, x)
                        /\ UNCHANGED <<F, ws>>
Done == todo = {}
Sum0(f, i, j) == LET D == {k \in DOMAIN f : k[4] = i /\ k[5] = j}
                     re(k) == f[k][1]
                     im(k) == f[k][2]
                 IN <<SumOver(re, D), SumOver(im, D)>>
InvDirect == Done => /\ DOMAIN acc = Keys(F, ws)
                     /\ \A k \in DOMAIN acc : acc[k] = HAt(F, ws, k)
InvHerm == Done => \A k \in DOMAIN acc : /\ HConj(k) \in DOMAIN acc
                                         /\ acc[HConj(k)] = CConj(acc[k])
InvSum == Done => \A i, j \in 0..(F.nw - 1) :
            LET re(n) == F.h[n][i + 1][j + 1][1] \div F.nd[n]
                im(n) == F.h[n][i + 1][j + 1][2] \div F.nd[n]
            IN Sum0(acc, i, j) = <<SumTo(re, Len(F.R)), SumTo(im, Len(F.R))>>
Inv == InvDirect /\ InvHerm /\ InvSum
===============================================================================
