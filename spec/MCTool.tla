--------------------------------- MODULE MCTool ---------------------------------
(* Design of the helpers: the totals of a timer are the time spent inside      *)
(* completed tic/toc pairs of each slot (recorded independently by ghost       *)
(* variables), overlapping slots do not disturb each other, and a progress bar *)
(* reports at most once per unit and never misses the end of even splits.      *)
EXTENDS Tool
CONSTANT Big
VARIABLES t, now, ghost, cnt, lines

Slots == {1, 2}
Tmax == IF Big THEN 7 ELSE 5
N == IF Big THEN 12 ELSE 7
Sc == IF Big THEN 5 ELSE 3
Init == /\ t = NoTimer /\ now = 0
        /\ ghost = [s \in Slots |-> [open |-> -1, sum |-> 0, prev |-> 0]]
        /\ cnt = [n \in 1..N |-> 0] /\ lines = [n \in 1..N |-> 0]
TicS(s) == /\ t' = Tic(t, s, now)
           /\ ghost' = [ghost EXCEPT ![s].open = now]
           /\ UNCHANGED <<now, cnt, lines>>
TocS(s) == /\ Running(t, s)
           /\ t' = Toc(t, s, now)
           /\ ghost' = [ghost EXCEPT ![s] = [open |-> -1, sum |-> @.sum + now - @.open,
                                             prev |-> now - @.open]]
           /\ UNCHANGED <<now, cnt, lines>>
Adv == /\ now < Tmax /\ now' = now + 1 /\ UNCHANGED <<t, ghost, cnt, lines>>
Cnt(n) == /\ cnt[n] < n /\ \A m \in 1..(n - 1) : cnt[m] = m
          /\ t = NoTimer /\ now = 0
          /\ cnt' = [cnt EXCEPT ![n] = @ + 1]
          /\ lines' = [lines EXCEPT ![n] = @ + (IF Due(n, Sc, cnt[n] + 1) THEN 1 ELSE 0)]
          /\ UNCHANGED <<t, now, ghost>>
Next == Adv \/ (\E s \in Slots : TicS(s) \/ TocS(s)) \/ (\E n \in 1..N : Cnt(n))
Inv == /\ \A s \in Slots :
            IF ~Known(t, s) THEN ghost[s].open = -1 /\ ghost[s].sum = 0
            ELSE LET i == Slot(t, s) IN
                 /\ t.beg[i] = ghost[s].open /\ t.tot[i] = ghost[s].sum
                 /\ t.last[i] = ghost[s].prev /\ t.tot[i] <= now
                 /\ (t.beg[i] >= 0) = Running(t, s)
       /\ Cardinality(Elems(t.ord)) = Len(t.ord)
       /\ \A n \in 1..N : /\ lines[n] = cnt[n] \div Unit(n, Sc)
                          /\ (n % Sc = 0 /\ cnt[n] = n) => lines[n] = Sc
                          /\ (n < Sc) => lines[n] = cnt[n]
=================================================================================
