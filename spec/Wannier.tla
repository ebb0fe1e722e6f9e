-------------------------------- MODULE Wannier --------------------------------
(* The Hamiltonian stored in the output files of Wannier90.                    *)
(*                                                                             *)
(* A set of files is F = [nw, R, nd, h, ws]: R is the sequence of cells of     *)
(* seed_hr.dat, nd their Wigner-Seitz degeneracies, h[n][i][j] the element     *)
(* between orbital i of the home cell and orbital j of cell R[n], ws[n][i][j]  *)
(* the translations of seed_wsvec.dat shared by that element. Energies are     *)
(* chosen divisible by nd * Len(ws), so that every share is a whole number.    *)
EXTENDS Hop

Share(v, n) == <<v[1] \div n, v[2] \div n>>
(* one element of the file contributes these terms                             *)
NoShift == <<Zero3>>
Vecs(F, ws, n, i, j) == IF ws THEN F.ws[n][i][j] ELSE NoShift
TermAt(F, n, i, j, t) == <<F.R[n][1] + t[1], F.R[n][2] + t[2], F.R[n][3] + t[3], i - 1, j - 1>>
Elements(F) == (1..Len(F.R)) \X (1..F.nw) \X (1..F.nw)
ShareOf(F, ws, n, i, j) == Share(F.h[n][i][j], F.nd[n] * Len(Vecs(F, ws, n, i, j)))
Acc(f, k, v) == (k :> IF k \in DOMAIN f THEN CAdd(f[k], v) ELSE v) @@ f
RECURSIVE AccVecs(_, _, _, _)
AccVecs(f, ks, v, m) == IF m = 0 THEN f ELSE Acc(AccVecs(f, ks, v, m - 1), ks[m], v)
AddElement(f, F, ws, x) ==
    LET vs == Vecs(F, ws, x[1], x[2], x[3])
        ks == [m \in 1..Len(vs) |-> TermAt(F, x[1], x[2], x[3], vs[m])]
    IN TLCEval(AccVecs(f, ks, ShareOf(F, ws, x[1], x[2], x[3]), Len(vs)))

(* H_ij(Q) = sum over R, T with R + T = Q of H_ij(R) / (nd(R) N_T), stated     *)
(* directly, without an order of evaluation                                    *)
Contrib(F, ws, k) ==
    {<<n, m>> \in (1..Len(F.R)) \X (1..4) :
        /\ m <= Len(Vecs(F, ws, n, k[4] + 1, k[5] + 1))
        /\ TermAt(F, n, k[4] + 1, k[5] + 1, Vecs(F, ws, n, k[4] + 1, k[5] + 1)[m]) = k}
Keys(F, ws) == {TermAt(F, x[1], x[2], x[3], Vecs(F, ws, x[1], x[2], x[3])[m]) :
                  <<x, m>> \in {<<y, q>> \in Elements(F) \X (1..4) :
                                  q <= Len(Vecs(F, ws, y[1], y[2], y[3]))}}
HAt(F, ws, k) ==
    LET S == Contrib(F, ws, k)
        re(p) == ShareOf(F, ws, p[1], k[4] + 1, k[5] + 1)[1]
        im(p) == ShareOf(F, ws, p[1], k[4] + 1, k[5] + 1)[2]
    IN <<SumOver(re, S), SumOver(im, S)>>

(* the cell built from the files: terms below the cutoff are dropped, terms    *)
(* within one unit of it may be kept or dropped                                *)
Abs2(v) == v[1] * v[1] + v[2] * v[2]
Below(v, cut) == Abs2(v) < cut * cut
Diag(k) == k = HConj(k)
===============================================================================
