-------------------------------- MODULE ToolTrace --------------------------------
(* Judges recorded use of the bookkeeping helpers against Tool.                  *)
EXTENDS Tool, TraceCore

InitSt(case) == [tm |-> <<NoTimer, NoTimer>>, now |-> 0, bar |-> [n |-> 1, s |-> 1, k |-> 0],
                 cf |-> <<NoConf, NoConf>>]
KB9 == 86173          \* Boltzmann's constant in 10^-9 eV / K, rounded down
ConfBad(C, o) ==
    (IF o.vals # [i \in 1..Len(C.val) |-> C.val[i][2]] \/ ~o.rest THEN {"parameters"} ELSE {})
    \cup (IF ~Near(o.kt, KB9 * C.temp, C.temp + 2) THEN {"temperature"} ELSE {})
Res(S, e) ==
    CASE e.op = "toc" -> IF Running(S.tm[e.i], e.slot) THEN {"ok"} ELSE {"RuntimeError"}
      [] e.op = "rep" -> IF AnyRunning(S.tm[e.i]) THEN {"RuntimeError"} ELSE {"ok"}
      [] e.op \in {"check", "store"} -> IF S.cf[e.i].bad THEN {"ValueError"} ELSE {"ok"}
      [] OTHER -> {"ok"}
Bad(S, e) ==
    CASE e.op = "rep" -> IF e.rows = Shown(S.tm[e.i], e.which) THEN {} ELSE {"reported_times"}
      [] e.op = "cnt" -> LET k == S.bar.k + 1 IN
            IF e.rows = (IF Due(S.bar.n, S.bar.s, k) THEN <<<<k, S.bar.n>>>> ELSE <<>>)
               /\ (e.rows # <<>> => Near(e.pc, (10000 * k) \div S.bar.n, 1))
            THEN {} ELSE {"reported_progress"}
      [] e.op = "seeds" -> (IF Len(e.got) # e.n THEN {"number_of_seeds"} ELSE {})
                           \cup (IF Cardinality(Elems(e.got)) # Len(e.got) THEN {"equal_seeds"} ELSE {})
                           \cup (IF ~e.whole THEN {"seed_not_a_number"} ELSE {})
      [] e.op = "banner" -> IF e.lens = [i \in 1..Len(e.lens) |-> e.width]
                               /\ Len(e.lens) = (IF e.block THEN 3 ELSE 1) /\ e.text
                            THEN {} ELSE {"banner"}
      [] e.op = "conf" -> ConfBad(S.cf[1], e.obs[1]) \cup ConfBad(S.cf[2], e.obs[2])
      [] OTHER -> {}
Nxt(S, e) ==
    CASE e.op = "adv" -> [S EXCEPT !.now = @ + e.dt]
      [] e.op = "tic" -> [S EXCEPT !.tm[e.i] = Tic(@, e.slot, S.now)]
      [] e.op = "toc" -> IF e.out = "ok" THEN [S EXCEPT !.tm[e.i] = Toc(@, e.slot, S.now)] ELSE S
      [] e.op = "rst" -> [S EXCEPT !.tm[e.i] = NoTimer]
      [] e.op = "bar" -> [S EXCEPT !.bar = [n |-> e.n, s |-> e.s, k |-> 0]]
      [] e.op = "cnt" -> [S EXCEPT !.bar.k = @ + 1]
      [] e.op = "temp" -> [S EXCEPT !.cf[e.i].temp = e.temp]
      [] e.op = "par" -> [S EXCEPT !.cf[e.i].val = Put(@, <<e.sec, e.key>>, e.v)]
      [] e.op = "wrong" -> [S EXCEPT !.cf[e.i].bad = TRUE]
      [] e.op = "newc" -> [S EXCEPT !.cf[e.i] = NoConf]
      [] OTHER -> S
Chk(S, e) ==
    LET b1 == IF e.out \in Res(S, e) THEN {}
              ELSE IF e.out = "ok" THEN {"error_not_raised"} ELSE {"unexpected_error"}
    IN [st |-> Nxt(S, e), bad |-> IF b1 # {} THEN b1 ELSE IF e.out # "ok" THEN {} ELSE Bad(S, e)]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
==================================================================================
