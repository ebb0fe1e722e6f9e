----------------------------- MODULE SlaterTrace ------------------------------
EXTENDS Slater, TraceCore
Conj2(V) == V
Close(o, x) == Near(o[1], RVal(x[1]), 6) /\ Near(o[2], RVal(x[2]), 6)
SkRes(e) == IF e.la \notin Labs \/ e.lb \notin Labs THEN "ValueError"
            ELSE IF e.r = Zero3 /\ ~(e.la = "s" /\ e.lb = "s") THEN "ValueError"
            ELSE "ok"
SkBad(e) == IF Close(e.val, Integral(e.r, e.n, e.la, e.lb, e.v)) THEN {}
            ELSE {"two_center_integral_" \o ToString(AngL(e.la)) \o ToString(AngL(e.lb))}
SocRes(e) == IF e.la \notin Labs \/ e.lb \notin Labs \/ e.sa \notin {"up", "down"}
                \/ e.sb \notin {"up", "down"} THEN "ValueError" ELSE "ok"
SocBad(e) ==
    LET w == LS12(e.la, e.sa, e.lb, e.sb)
        big(x) == <<100000 * x[1], 100000 * x[2]>>
    IN IF Close(e.val, <<big(w[1]), big(w[2])>>) THEN {} ELSE {"spin_orbit_" \o e.cls}
InitSt(case) == 0
Chk(S, e) ==
    LET res == IF e.op = "sk" THEN SkRes(e) ELSE SocRes(e)
    IN [st |-> S,
        bad |-> IF e.out # res
                THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
                ELSE IF e.out # "ok" THEN {}
                ELSE IF e.op = "sk" THEN SkBad(e) ELSE SocBad(e)]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=============================================================================
