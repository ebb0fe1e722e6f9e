--------------------------------- MODULE Ham ---------------------------------
(* Hamiltonians of primitive cells and samples, and the operations on a     *)
(* sample that act on its matrix elements: rescaling, magnetic field,       *)
(* Bloch phase, reset.                                                      *)
EXTENDS Builder, Phase

(* ---------------------- models from a description ------------------------ *)
RECURSIVE CloseList(_, _)
CloseList(f, list) ==
    IF list = <<>> THEN f
    ELSE LET t == Head(list) IN
         CloseList(HPut(f, HKey(t, t[4], t[5]), <<t[6], t[7]>>), Tail(list))
DirList(list) == [k \in {HKey(list[n], list[n][4], list[n][5]) : n \in 1..Len(list)} |->
                     LET n == CHOOSE m \in 1..Len(list) :
                                  HKey(list[m], list[m][4], list[m][5]) = k
                     IN <<list[n][6], list[n][7]>>]
MkPc(d) == [lat |-> d.lat, org |-> d.org, orb |-> d.orb,
            hop |-> CloseList(NoHop, d.hop)]
MkModel(d) ==
    [pc |-> [i \in 1..Len(d.pcs) |-> MkPc(d.pcs[i])],
     sc |-> [i \in 1..Len(d.scs) |->
                [pc |-> d.scs[i].pc, dim |-> d.scs[i].dim, pbc |-> d.scs[i].pbc,
                 vac |-> Elems(d.scs[i].vac), pm |-> d.scs[i].pm,
                 mod |-> CloseList(NoHop, d.scs[i].mod)]],
     ih |-> [i \in 1..Len(d.ihs) |->
                [bra |-> d.ihs[i].bra, ket |-> d.ihs[i].ket,
                 hop |-> DirList(d.ihs[i].hop)]],
     sp |-> <<[sc |-> d.sp.sc, ih |-> d.sp.ih]>>]

(* ------------------------- primitive cell -------------------------------- *)
(* phase of a term in 1/720 turn for k = kn/kd (fractional)                 *)
PcTurn(pc, k, conv, kn, kd) ==
    LET R == VScale(48, HRn(k))
        d == IF conv = 1 THEN VAdd(R, VSub(pc.orb[k[5]+1].p, pc.orb[k[4]+1].p))
             ELSE R
    IN (15 * Dot(kn, d)) \div kd
PcTurnOk(pc, conv, kn, kd) ==
    \A k \in DOMAIN pc.hop :
        LET R == VScale(48, HRn(k))
            d == IF conv = 1 THEN VAdd(R, VSub(pc.orb[k[5]+1].p, pc.orb[k[4]+1].p))
                 ELSE R
        IN (15 * Dot(kn, d)) % kd = 0
HamPc(pc, conv, kn, kd) ==
    LET n == Len(pc.orb)
        val == TLCEval([k \in DOMAIN pc.hop |-> CTurn(pc.hop[k], PcTurn(pc, k, conv, kn, kd))])
        el(i, j) == LET D == {k \in DOMAIN pc.hop : k[4] = i /\ k[5] = j}
                        Re(k) == val[k][1]
                        Im(k) == val[k][2]
                    IN <<SumOver(Re, D) + (IF i = j THEN PScale * pc.orb[i+1].e ELSE 0),
                         SumOver(Im, D)>>
    IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> el(i-1, j-1)])])

(* ------------------------------ sample ------------------------------------ *)
(* hop : <<i, j, dx, dy, dz>> -> <<re, im, turn>>, closed under conjugation: *)
(* matrix element (re + i im) exp(2 pi i turn / 720) / f                     *)
SKey(t) == <<t[1], t[2], t[5], t[6], t[7]>>
SConj(k) == <<k[2], k[1], -k[3], -k[4], -k[5]>>
SampleHop(w) ==
    LET T == SpHop(w, 1)
    IN [k \in {SKey(t) : t \in T} |->
           LET t == CHOOSE u \in T : SKey(u) = k IN <<t[3], t[4], 0>>]
NewSample(w) == [w |-> w, hop |-> SampleHop(w), eng |-> SpEng(w, 1),
                 pos |-> SpPos(w, 1), f |-> 1]
ResetSample(s) == [s EXCEPT !.hop = SampleHop(s.w), !.f = 1]

ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
RowSum(s, i) == LET D == {k \in DOMAIN s.hop : k[1] = i}
                    A(k) == ISqrt(s.hop[k][1]*s.hop[k][1] + s.hop[k][2]*s.hop[k][2])
                IN Abs(s.eng[i+1]) + SumOver(A, D)
RowMax(s) == MaxOf({RowSum(s, i) : i \in 0..(Len(s.eng) - 1)})
Rescaled(s, f) == [s EXCEPT !.f = f]

(* Peierls phase. Field b: one unit makes 16/48^2 nm^2 one 720th of a turn.  *)
(* b is even for the symmetric gauge.                                        *)
MagTurn(pos, k, b, g) ==
    LET sx == pos[k[1]+1][1] + pos[k[2]+1][1]
        sy == pos[k[1]+1][2] + pos[k[2]+1][2]
        a == CASE g = 0 -> k[3] * sy
               [] g = 1 -> -(k[4] * sx)
               [] g = 2 -> k[3] * sy - k[4] * sx
    IN (IF g = 2 THEN b \div 2 ELSE b) * (a \div 16)
Magnetic(s, b, g) ==
    [s EXCEPT !.hop = [k \in DOMAIN s.hop |->
        <<s.hop[k][1], s.hop[k][2],
          (s.hop[k][3] + MagTurn(s.pos, k, b, g)) % 720>>]]

(* Bloch phase for k = kn/kd, fractional w.r.t. the first supercell          *)
Sc0Lat(s) == LET c == s.w.sc[s.w.sp[1].sc[1]] IN ScLat(c, s.w.pc[c.pc])
KDot(L, kn, d) == kn[1] * Dot(d, Cross(L[2], L[3])) + kn[2] * Dot(d, Cross(L[3], L[1]))
                  + kn[3] * Dot(d, Cross(L[1], L[2]))
KTurn(L, k, kn, kd) ==
    LET q == (15 * KDot(L, kn, <<k[3], k[4], k[5]>>)) \div (kd * Abs(Det3(L)))
    IN IF Det3(L) > 0 THEN q ELSE -q
KTurnOk(s, kn, kd) ==
    LET L == Sc0Lat(s) IN
    \A k \in DOMAIN s.hop : (15 * KDot(L, kn, <<k[3], k[4], k[5]>>))
                               % Abs(kd * Det3(L)) = 0
Bloch(s, kn, kd) ==
    LET L == Sc0Lat(s) IN
    [s EXCEPT !.hop = [k \in DOMAIN s.hop |->
        <<s.hop[k][1], s.hop[k][2], (s.hop[k][3] + KTurn(L, k, kn, kd)) % 720>>]]

(* terms by row *)
SRows(s) == TLCEval([i \in 0..(Len(s.eng) - 1) |->
                        TLCEval({k \in DOMAIN s.hop : k[1] = i})])
(* matrix of the stored (unscaled) elements *)
SMat(s) ==
    LET n == Len(s.eng)
        val == TLCEval([k \in DOMAIN s.hop |-> CTurn(<<s.hop[k][1], s.hop[k][2]>>, s.hop[k][3])])
        row == SRows(s)
        el(i, j) == LET D == {k \in row[i] : k[2] = j}
                        Re(k) == val[k][1]
                        Im(k) == val[k][2]
                    IN <<SumOver(Re, D) + (IF i = j THEN PScale * s.eng[i+1] ELSE 0),
                         SumOver(Im, D)>>
    IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> el(i-1, j-1)])])
DMat(s, c) ==      \* distances, c = 1, 2
    LET n == Len(s.eng)
        row == SRows(s)
        el(i, j) == LET D == {k \in row[i] : k[2] = j}
                        F(k) == k[2 + c]
                    IN SumOver(F, D)
    IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> el(i-1, j-1)])])

Hermitian(M, tol) == \A i \in 1..Len(M), j \in 1..Len(M) :
                        j >= i => /\ Near(M[i][j][1], M[j][i][1], tol)
                                  /\ Near(M[i][j][2], -M[j][i][2], tol)
=============================================================================
