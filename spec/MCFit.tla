--------------------------------- MODULE MCFit ---------------------------------
(* Design checks on small linear models: a parameter vector is stationary iff *)
(* no other one on the grid has less cost (convexity), whatever the sign and  *)
(* the common scale of the weights; normalized weights sum to one; a band of  *)
(* weight zero does not matter.                                               *)
EXTENDS Fit
CONSTANT Big
VARIABLE x

V == -1..1
W == IF Big THEN V ELSE {-1}
P == {<<a, b>> : a \in -2..2, b \in -2..2}
Init == \E r1 \in V, r2 \in V, r3 \in W, r4 \in W, a \in V, b \in V, w \in {<<>>, <<1, 2>>, <<-2, 1>>, <<0, 3>>} :
        x = [ref |-> <<<<r1, r2>>, <<r3, r4>>>>,
             A |-> <<<<<<1, a>>, <<1, 0>>>>, <<<<b, 1>>, <<0, 2>>>>>>, w |-> w]
Next == UNCHANGED x
Scaled == [x EXCEPT !.w = [i \in 1..Len(x.w) |-> -3 * x.w[i]]]
Other == [x EXCEPT !.ref = <<<<x.ref[1][1] + 1, x.ref[1][2]>>, <<x.ref[2][1] - 2, x.ref[2][2]>>>>]
Inv ==
  /\ \A p \in P : LET s == TLCEval(Stationary(x, p, 1, 0)) IN
        /\ s => \A q \in P : Cost(x, p) <= Cost(x, q)
        /\ s = Stationary(Scaled, p, 1, 0)
        /\ (x.w # <<>> /\ x.w[1] = 0) => (s = Stationary(Other, p, 1, 0)
                                         /\ Misfit6(x, p, 1, 1) = 0)
        \* the gradient points downhill: a step along it lowers the cost
        /\ ~s => \E q \in {<<100 * p[1] + (IF Grad(x, p, 1, 1) > 0 THEN 1 ELSE IF Grad(x, p, 1, 1) < 0 THEN -1 ELSE 0),
                            100 * p[2] + (IF Grad(x, p, 1, 2) > 0 THEN 1 ELSE IF Grad(x, p, 1, 2) < 0 THEN -1 ELSE 0)>>} :
              LET F == [x EXCEPT !.ref = <<<<100 * x.ref[1][1], 100 * x.ref[1][2]>>,
                                           <<100 * x.ref[2][1], 100 * x.ref[2][2]>>>>]
              IN Cost(F, q) < Cost(F, <<100 * p[1], 100 * p[2]>>)
  /\ x.w # <<>> => Near(Weight6(x, 1) + Weight6(x, 2), ONE, 1)
================================================================================
