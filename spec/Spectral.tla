------------------------------- MODULE Spectral -------------------------------
(* Spectra by certificate: energies E and vectors V are accepted as the       *)
(* complete solution of H v = E S v iff every pair satisfies the equation and *)
(* the vectors are orthonormal w.r.t. S; then every derived quantity (bands,  *)
(* projections, density of states, response functions) is a function of them. *)
EXTENDS Ham, Fx

Ident(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN <<ONE, 0>> ELSE CZero])])
VecNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : CNear(u[i], v[i], tol)
EigenPair(H, S, en, v, tol) ==
    Len(v) = Len(H) /\ VecNear(MVec(H, v), MVec(S, [i \in 1..Len(v) |-> CScale(en, v[i])]), tol)
Orthonormal(S, V, tol) ==
    \A a \in 1..Len(V) : LET w == MVec(S, V[a]) IN
        \A b \in a..Len(V) : CNear(VDot(V[b], w), IF a = b THEN <<ONE, 0>> ELSE CZero, tol)
Certified(H, S, E, V, tol) ==
    /\ Len(E) = Len(V)
    /\ \A n \in 1..Len(E) : EigenPair(H, S, E[n], V[n], tol)
    /\ Orthonormal(S, V, tol)
Complete1(H, E) == Len(E) = Len(H)
Ascending(E, tol) == \A n \in 1..(Len(E) - 1) : E[n] <= E[n+1] + tol
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* weight of state v on the orbitals in O (0-based, counted as listed) *)
Weight(v, O) == LET F(i) == CAbs2(v[O[i] + 1]) IN SumTo(F, Len(O))

(* the band energies in the order E, with some projections P, agree with the *)
(* certificate (energies C, weights W): projections are only defined on      *)
(* groups of degenerate states                                               *)
Group(E, n, tol) == {m \in 1..Len(E) : Near(E[m], E[n], tol)}
ProjOk(E, P, W, tol) ==
    \A n \in 1..Len(E) :
        LET G == Group(E, n, 2000)
            FP(m) == P[m]
            FW(m) == W[m]
        IN Near(SumOver(FP, G), SumOver(FW, G), tol)

Gauss(x, mu, sg) == LET d == FDiv(x - mu, sg)
                    IN IF Abs(d) >= 5500000 THEN 0
                       ELSE FDiv(FMul(398942, FExpN(FMul(d, d) \div 2)), sg)
Lorentz(x, mu, sg) == LET d == FDiv(x - mu, sg)
                      IN IF Abs(d) >= 30 * ONE
                         THEN FDiv(FDiv(FDiv(318310, sg), d), d)
                         ELSE FDiv(FDiv(318310, FMul(d, d) + ONE), sg)
(* density of states of the energies Es[k][n] with weights Ws[k][n] at x *)
Dos(Es, Ws, x, sg, basis, gs) ==
    LET nk == Len(Es)
        B(mu) == IF basis = "Gaussian" THEN Gauss(x, mu, sg) ELSE Lorentz(x, mu, sg)
        K(k) == LET F(n) == FMul(B(Es[k][n]), Ws[k][n]) IN SumTo(F, Len(Es[k]))
        num == nk * Len(Es[1])
    IN gs * RDiv(SumTo(K, nk), num)
===============================================================================
