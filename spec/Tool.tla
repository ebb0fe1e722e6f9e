---------------------------------- MODULE Tool ----------------------------------
(* Bookkeeping helpers: timers with named slots, progress bars, parameters of  *)
(* TBPM calculations. Time in 1/8 s.                                           *)
EXTENDS Util, FiniteSets, TLC

(* timer: order of the slots' first tic; start (-1: not running), last, total  *)
NoTimer == [ord |-> <<>>, beg |-> <<>>, last |-> <<>>, tot |-> <<>>]
Known(t, s) == \E i \in 1..Len(t.ord) : t.ord[i] = s
Slot(t, s) == CHOOSE i \in 1..Len(t.ord) : t.ord[i] = s
Tic(t, s, now) ==
    IF Known(t, s) THEN [t EXCEPT !.beg[Slot(t, s)] = now]
    ELSE [ord |-> Append(t.ord, s), beg |-> Append(t.beg, now), last |-> Append(t.last, 0),
          tot |-> Append(t.tot, 0)]
Running(t, s) == Known(t, s) /\ t.beg[Slot(t, s)] >= 0
Toc(t, s, now) ==
    LET i == Slot(t, s)
        d == now - t.beg[i]
    IN [t EXCEPT !.beg[i] = -1, !.last[i] = d, !.tot[i] = @ + d]
AnyRunning(t) == \E i \in 1..Len(t.beg) : t.beg[i] >= 0
Shown(t, which) == [i \in 1..Len(t.ord) |-> <<t.ord[i], IF which = "tot" THEN t.tot[i] ELSE t.last[i]>>]

(* progress bar over n tasks with s scales *)
Unit(n, s) == IF n \div s = 0 THEN 1 ELSE n \div s
Due(n, s, cnt) == cnt % Unit(n, s) = 0

(* parameters: assigned values, temperature (0: as constructed, 300 K) *)
Legal == {"generic", "LDOS", "dyn_pol", "dckb"}
NoConf == [val |-> <<>>, temp |-> 300, bad |-> FALSE]
Put(q, k, v) == IF \E i \in 1..Len(q) : q[i][1] = k
                THEN [i \in 1..Len(q) |-> IF q[i][1] = k THEN <<k, v>> ELSE q[i]]
                ELSE Append(q, <<k, v>>)
=================================================================================
