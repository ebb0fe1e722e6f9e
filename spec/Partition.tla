------------------------------- MODULE Partition -------------------------------
(* Distribution of the items 0 .. m-1 over n processes.                        *)
EXTENDS Util

PSize(m, n, r) == m \div n + (IF r < m % n THEN 1 ELSE 0)
PLo(m, n, r) == r * (m \div n) + Min2(r, m % n)
POwn(m, n, r) == PLo(m, n, r)..(PLo(m, n, r) + PSize(m, n, r) - 1)
(* a distribution is a sequence (by process) of sequences of items: every item *)
(* goes to exactly one process, in order, and no process gets two items more   *)
(* than another                                                                *)
RECURSIVE Concat(_, _)
Concat(d, n) == IF n = 0 THEN <<>> ELSE Concat(d, n - 1) \o d[n]
Items(m) == [i \in 1..m |-> i - 1]
IsDist(d, m, n) == /\ Len(d) = n
                   /\ Concat(d, n) = Items(m)
                   /\ \A r, s \in 1..n : Len(d[r]) - Len(d[s]) <= 1
Remainder(m, n) == [r \in 1..n |-> [i \in 1..PSize(m, n, r - 1) |-> (r - 1) + (i - 1) * n]]
(* number of samples run by n processes that are asked for m of them           *)
RoundUp(m, n) == ((m + n - 1) \div n) * n
===============================================================================
