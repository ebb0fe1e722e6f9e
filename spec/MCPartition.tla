------------------------------ MODULE MCPartition ------------------------------
(* A parallel calculation: stage 1 fills one entry per item on its owner,      *)
(* optionally sums the entries of all processes, stage 2 lets the owner of     *)
(* item k use entry k + shift of stage 1, and a final sum gives the result to  *)
(* all. The processes proceed in any interleaving and meet in the sums only.   *)
EXTENDS Partition
CONSTANT Big
VARIABLES m, n, shift, red, at, done, loc, res

MaxM == IF Big THEN 5 ELSE 3
MaxN == IF Big THEN 4 ELSE 3
vars == <<m, n, shift, red, at, done, loc, res>>
Val1(k) == 3 * k + 1
Val2(k, mm, s) == 10 * (k + 1) * Val1((k + s) % mm) + k
Ranks == 0..(n - 1)
Row(v) == [k \in 0..(m - 1) |-> v]
Init == /\ m \in 1..MaxM /\ n \in 1..MaxN /\ shift \in 0..(m - 1)
        /\ red \in BOOLEAN
        /\ at = [r \in 0..(n - 1) |-> "one"]
        /\ done = [r \in 0..(n - 1) |-> {}]
        /\ loc = [r \in 0..(n - 1) |-> [k \in 0..(m - 1) |-> 0]]
        /\ res = [r \in 0..(n - 1) |-> [k \in 0..(m - 1) |-> 0]]
SumR(f, k) == LET g(r) == f[r][k] IN SumOver(g, Ranks)
One(r) == /\ at[r] = "one"
          /\ \E k \in POwn(m, n, r) \ done[r] :
               /\ k = MinOf(POwn(m, n, r) \ done[r])
               /\ loc' = [loc EXCEPT ![r][k] = Val1(k)]
               /\ done' = [done EXCEPT ![r] = @ \cup {k}]
          /\ UNCHANGED <<m, n, shift, red, at, res>>
EndOne(r) == /\ at[r] = "one" /\ done[r] = POwn(m, n, r)
             /\ at' = [at EXCEPT ![r] = IF red THEN "sum1" ELSE "two"]
             /\ done' = [done EXCEPT ![r] = {}]
             /\ UNCHANGED <<m, n, shift, red, loc, res>>
Sum1 == /\ \A r \in Ranks : at[r] = "sum1"
        /\ loc' = [r \in Ranks |-> [k \in 0..(m - 1) |-> SumR(loc, k)]]
        /\ at' = [r \in Ranks |-> "two"]
        /\ UNCHANGED <<m, n, shift, red, done, res>>
Two(r) == /\ at[r] = "two"
          /\ \E k \in POwn(m, n, r) \ done[r] :
               /\ k = MinOf(POwn(m, n, r) \ done[r])
               /\ res' = [res EXCEPT ![r][k] = 10 * (k + 1) * loc[r][(k + shift) % m] + k]
               /\ done' = [done EXCEPT ![r] = @ \cup {k}]
          /\ UNCHANGED <<m, n, shift, red, at, loc>>
EndTwo(r) == /\ at[r] = "two" /\ done[r] = POwn(m, n, r)
             /\ at' = [at EXCEPT ![r] = "sum2"]
             /\ UNCHANGED <<m, n, shift, red, done, loc, res>>
Sum2 == /\ \A r \in Ranks : at[r] = "sum2"
        /\ res' = [r \in Ranks |-> [k \in 0..(m - 1) |-> SumR(res, k)]]
        /\ at' = [r \in Ranks |-> "end"]
        /\ UNCHANGED <<m, n, shift, red, done, loc>>
End == (\A r \in Ranks : at[r] = "end") /\ UNCHANGED vars
Next == (\E r \in Ranks : One(r) \/ EndOne(r) \/ Two(r) \/ EndTwo(r)) \/ Sum1 \/ Sum2 \/ End

InvDist == /\ IsDist([r \in 1..n |-> [i \in 1..PSize(m, n, r - 1) |-> PLo(m, n, r - 1) + i - 1]], m, n)
           /\ UNION {POwn(m, n, r) : r \in Ranks} = 0..(m - 1)
           /\ \A r, s \in Ranks : r # s => POwn(m, n, r) \cap POwn(m, n, s) = {}
InvRem == m >= n => /\ UNION {Elems(Remainder(m, n)[r]) : r \in 1..n} = 0..(m - 1)
                    /\ \A r \in 1..n : Len(Remainder(m, n)[r]) = Cardinality(Elems(Remainder(m, n)[r]))
InvRound == RoundUp(m, n) % n = 0 /\ RoundUp(m, n) >= m /\ RoundUp(m, n) < m + n
(* all processes end with the serial result, if the entries of stage 1 were    *)
(* shared or each item uses its own entry only                                 *)
InvRes == (\A r \in Ranks : at[r] = "end") /\ (red \/ shift = 0) =>
            \A r \in Ranks : \A k \in 0..(m - 1) : res[r][k] = Val2(k, m, shift)
InvOwn == \A r \in Ranks : done[r] \subseteq POwn(m, n, r)
Inv == InvDist /\ InvRem /\ InvRound /\ InvRes /\ InvOwn
===============================================================================
