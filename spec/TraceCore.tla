------------------------------ MODULE TraceCore ------------------------------
(* Total trace validation: TLC starts one behaviour per recorded case and   *)
(* consumes its events one by one. Chk(st, e) yields the specification's    *)
(* next state and the set of violated clauses. A violated clause is printed *)
(* and ends that case, so that every other case is still judged.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES c, l, st

Cases == ndJsonDeserialize(IOEnv.TRACE)
Case == Cases[c]

TraceInit(InitSt(_)) ==
    /\ c \in 1..Len(Cases)
    /\ l = 0
    /\ st = InitSt(Cases[c])

TraceNext(Chk(_, _)) ==
    /\ l < Len(Cases[c].ev)
    /\ c' = c
    /\ \E e \in {Cases[c].ev[l + 1]} :
       IF e.op \in {"died", "exc"}
       THEN /\ PrintT(<<"FAIL", Cases[c].id, l + 1,
                        {IF e.op = "died" THEN "process_died"
                         ELSE "unexpected_exception"}>>)
            /\ l' = Len(Cases[c].ev) + 1
            /\ st' = st
       ELSE \E r \in {Chk(st, e)} :
            IF r.bad = {}
            THEN /\ l' = l + 1
                 /\ st' = r.st
            ELSE /\ PrintT(<<"FAIL", Cases[c].id, l + 1, r.bad>>)
                 /\ l' = Len(Cases[c].ev) + 1
                 /\ st' = st
=============================================================================
