-------------------------------- MODULE FitTrace --------------------------------
(* Judges recorded parameter fits against Fit.                                 *)
EXTENDS Fit, TraceCore

U == 10000
InitSt(case) == <<>>
ErrBad(F, e) ==
    LET ok == /\ Len(e.err) = NK(F) * NB(F)
              /\ \A k \in 1..NK(F), b \in 1..NB(F) :
                    LET r == Res(F, e.p, 1, k, b) IN
                    Near(e.err[(k - 1) * NB(F) + b], Weight6(F, b) * r, 3 + Abs(r))
    IN IF ok THEN {} ELSE {"misfit"}
FitBad(F, e) ==
    IF Len(e.p) # NM(F) THEN {"number_of_parameters"}
    ELSE IF \E m \in 1..NM(F) : Abs(e.p[m]) > 60 * U THEN {"parameters_out_of_range"}
    ELSE IF Stationary(F, e.p, U, 2) THEN {} ELSE {"not_least_squares"}
Chk(S, e) ==
    LET rec == IF e.op # "new" THEN S ELSE [ref |-> e.ref, A |-> e.A, w |-> e.w]
        res == CASE e.op = "new" -> IF NewOk(rec) THEN {"ok"} ELSE {"ValueError"}
                 [] e.op = "fit" -> IF e.few = 0 THEN {"ok"}
                                    ELSE IF Stationary(S, e.p0, 1, 0) THEN {"ok", "RuntimeError"}
                                    ELSE {"RuntimeError"}
                 [] OTHER -> {"ok"}
        b1 == IF e.out \in res THEN {}
              ELSE IF e.out = "ok" THEN {"error_not_raised"} ELSE {"unexpected_error"}
        b2 == IF e.out # "ok" THEN {}
              ELSE CASE e.op = "err" -> ErrBad(S, e)
                     [] e.op = "fit" -> FitBad(S, e)
                     [] OTHER -> {}
        b3 == IF e.op = "touch" \/ e.intact THEN {} ELSE {"arguments_modified"}
    IN [bad |-> b1 \cup b2 \cup b3, st |-> IF e.op = "new" /\ e.out = "ok" THEN rec ELSE S]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=================================================================================
