------------------------------- MODULE Crystal -------------------------------
(* A primitive cell denotes an infinite crystal: orbitals at R + r_o and    *)
(* hopping terms between them. Transformations of the cell (extension,      *)
(* reshaping, hetero layers) choose another set of lattice vectors M * lat  *)
(* and must denote the same crystal.                                        *)
(*   P : [lat, org, orb : seq of [p, e, lab], hop]   p in 1/48, unique lab  *)
(*   Q : [lat, org, orb : seq of <<x, y, z, e, lab>>, hop]  x.. in nm/48    *)
EXTENDS Hop, Lattice

MatMul(A, B) == <<VMat(A[1], B), VMat(A[2], B), VMat(A[3], B)>>
Diag(d) == <<<<d[1], 0, 0>>, <<0, d[2], 0>>, <<0, 0, d[3]>>>>
Eye == Diag(<<1, 1, 1>>)

LabelId(P, lab) == LET S == {i \in 1..Len(P.orb) : P.orb[i].lab = lab}
                   IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
(* displacement (nm/48) of a Q-orbital from its counterpart in cell zero *)
Disp(P, q) == LET o == P.orb[LabelId(P, q[5])]
              IN VSub(VSub(<<q[1], q[2], q[3]>>, VMat(o.p, P.lat)), VScale(48, P.org))
IsMult(v, n) == v[1] % n = 0 /\ v[2] % n = 0 /\ v[3] % n = 0
DivV(v, n) == <<v[1] \div n, v[2] \div n, v[3] \div n>>
OnLattice(P, q) == IsMult(FracDet(P.lat, Disp(P, q)), 48 * Volume(P.lat))
CellOf(P, q) == VScale(Sgn(Det3(P.lat)),
                       DivV(FracDet(P.lat, Disp(P, q)), 48 * Volume(P.lat)))
(* is the integer vector v in the sublattice spanned by the rows of M? *)
InSub(M, v) == IsMult(FracDet(M, v), Volume(M))

(* clauses that do not hold for Q as a representation of P with cell M *)
CrystalBad(P, Q, M) ==
    IF Q.lat # MatMul(M, P.lat) THEN {"lattice_vectors"}
    ELSE IF Q.org # P.org THEN {"origin"}
    ELSE IF \E i \in 1..Len(Q.orb) : LabelId(P, Q.orb[i][5]) = 0 THEN {"labels"}
    ELSE IF Len(Q.orb) # Len(P.orb) * Volume(M) THEN {"number_of_orbitals"}
    ELSE IF \E i \in 1..Len(Q.orb) : ~OnLattice(P, Q.orb[i]) THEN {"orbital_positions"}
    ELSE IF \E i \in 1..Len(Q.orb) : Q.orb[i][4] # P.orb[LabelId(P, Q.orb[i][5])].e
         THEN {"onsite_energies"}
    ELSE LET n == Len(Q.orb)
             id == [i \in 1..n |-> LabelId(P, Q.orb[i][5])]
             R == [i \in 1..n |-> CellOf(P, Q.orb[i])]
             img(k) == LET d == VAdd(VSub(R[k[5]+1], R[k[4]+1]), VMat(HRn(k), M))
                       IN <<d[1], d[2], d[3], id[k[4]+1] - 1, id[k[5]+1] - 1>>
         IN IF \E i \in 1..n, j \in 1..n :
                 i < j /\ id[i] = id[j] /\ InSub(M, VSub(R[j], R[i]))
            THEN {"orbital_repeated"}
            ELSE IF ~HInRange(Q.hop, n) THEN {"hopping_indices"}
            ELSE IF \E k \in DOMAIN Q.hop : img(k) \notin DOMAIN P.hop
                 THEN {"spurious_hopping"}
            ELSE IF \E k \in DOMAIN Q.hop : P.hop[img(k)] # Q.hop[k]
                 THEN {"hopping_energy"}
            ELSE IF \E i \in 1..n : HDegree(Q.hop, i - 1) # HDegree(P.hop, id[i] - 1)
                 THEN {"missing_hopping"}
            ELSE {}

(* the extended cell, constructed explicitly *)
ExtOrb(P, dim) ==
    LET n == Len(P.orb) IN
    [m \in 1..(n * dim[1] * dim[2] * dim[3]) |->
        LET o == (m - 1) % n
            q == (m - 1) \div n
            R == <<q \div (dim[3] * dim[2]), (q \div dim[3]) % dim[2], q % dim[3]>>
            x == VAdd(VMat(VAdd(VScale(48, R), P.orb[o+1].p), P.lat), VScale(48, P.org))
        IN <<x[1], x[2], x[3], P.orb[o+1].e, P.orb[o+1].lab>>]
ExtHop(P, dim) ==
    LET n == Len(P.orb)
        idx(R, o) == ((R[1] * dim[2] + R[2]) * dim[3] + R[3]) * n + o
        Cs == {<<a, b, d>> : a \in 0..(dim[1]-1), b \in 0..(dim[2]-1), d \in 0..(dim[3]-1)}
        new(R, k) == LET t == VAdd(R, HRn(k)) IN
                     <<t[1] \div dim[1], t[2] \div dim[2], t[3] \div dim[3],
                       idx(R, k[4]),
                       idx(<<t[1] % dim[1], t[2] % dim[2], t[3] % dim[3]>>, k[5])>>
        D == {<<R, k>> : R \in Cs, k \in DOMAIN P.hop}
    IN [x \in {new(d[1], d[2]) : d \in D} |->
           P.hop[(CHOOSE d \in D : new(d[1], d[2]) = x)[2]]]
ExtCell(P, dim) == [lat |-> MatMul(Diag(dim), P.lat), org |-> P.org,
                    orb |-> ExtOrb(P, dim), hop |-> ExtHop(P, dim)]

(* merged cell: components one after the other, at their Cartesian places *)
RECURSIVE Offs(_, _)
Offs(Ps, i) == IF i = 1 THEN 0 ELSE Offs(Ps, i - 1) + Len(Ps[i-1].orb)
CartOrb(P) == [i \in 1..Len(P.orb) |->
                 LET x == VAdd(VMat(P.orb[i].p, P.lat), VScale(48, P.org))
                 IN <<x[1], x[2], x[3], P.orb[i].e, P.orb[i].lab>>]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
ShiftHop(f, a) == [k \in {<<x[1], x[2], x[3], x[4] + a, x[5] + a>> : x \in DOMAIN f} |->
                      f[<<k[1], k[2], k[3], k[4] - a, k[5] - a>>]]
RECURSIVE MergeIntra(_, _)
MergeIntra(Ps, i) == IF i = 0 THEN NoHop
                     ELSE ShiftHop(Ps[i].hop, Offs(Ps, i)) @@ MergeIntra(Ps, i - 1)
(* inter: sequence of <<bra, ket, list>>; the terms are added in order *)
RECURSIVE PutAll(_, _, _, _)
PutAll(f, list, a, b) ==
    IF list = <<>> THEN f
    ELSE LET t == Head(list)
         IN PutAll(HPut(f, <<t[1], t[2], t[3], t[4] + a, t[5] + b>>, <<t[6], t[7]>>),
                   Tail(list), a, b)
RECURSIVE MergeInter(_, _, _)
MergeInter(Ps, f, ihs) ==
    IF ihs = <<>> THEN f
    ELSE LET h == Head(ihs)
         IN MergeInter(Ps, PutAll(f, h.hop, Offs(Ps, h.bra), Offs(Ps, h.ket)), Tail(ihs))
Merged(Ps, ihs) ==
    [lat |-> Ps[1].lat, org |-> Ps[1].org,
     orb |-> Cat([i \in 1..Len(Ps) |-> CartOrb(Ps[i])]),
     hop |-> MergeInter(Ps, MergeIntra(Ps, Len(Ps)), ihs)]
=============================================================================
