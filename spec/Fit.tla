---------------------------------- MODULE Fit ----------------------------------
(* Fitting the parameters of a model that is linear in them to reference      *)
(* bands: bands(p) = sum_m p_m A_m, misfit weighted band by band.             *)
EXTENDS Fx

(* F: [ref : K x B, A : M x K x B, w : weights of the bands or <<>>]          *)
NK(F) == Len(F.ref)
NB(F) == Len(F.ref[1])
NM(F) == Len(F.A)
NewOk(F) == F.w = <<>> \/ Len(F.w) = NB(F)
Wt(F, b) == IF F.w = <<>> THEN 1 ELSE Abs(F.w[b])
SumW(F) == LET G(b) == Wt(F, b) IN SumTo(G, NB(F))
(* unit u of the parameters: residual in the same unit *)
Res(F, p, u, k, b) == LET G(m) == p[m] * F.A[m][k][b] IN u * F.ref[k][b] - SumTo(G, NM(F))
(* the misfit in 10^-6 for whole parameters *)
Weight6(F, b) == IF F.w = <<>> THEN ONE ELSE FDiv(ONE * Wt(F, b), ONE * SumW(F))
Misfit6(F, p, k, b) == Weight6(F, b) * Res(F, p, 1, k, b)
(* gradient of half the summed squares, up to the square of the summed weights *)
Grad(F, p, u, m) ==
    LET G(k) == LET H(b) == Wt(F, b) * Wt(F, b) * Res(F, p, u, k, b) * F.A[m][k][b]
                IN SumTo(H, NB(F))
    IN SumTo(G, NK(F))
Slack(F, m) ==           \* change of the gradient under unit changes of p
    LET G(k) == LET H(b) == LET J(q) == Abs(F.A[q][k][b]) IN
                            Wt(F, b) * Wt(F, b) * Abs(F.A[m][k][b]) * SumTo(J, NM(F))
                IN SumTo(H, NB(F))
    IN SumTo(G, NK(F))
Stationary(F, p, u, slack) == \A m \in 1..NM(F) : Abs(Grad(F, p, u, m)) <= slack * Slack(F, m)
Cost(F, p) == LET G(k) == LET H(b) == Wt(F, b) * Wt(F, b) * Res(F, p, 1, k, b) * Res(F, p, 1, k, b)
                          IN SumTo(H, NB(F))
              IN SumTo(G, NK(F))
================================================================================
