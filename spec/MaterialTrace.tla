----------------------------- MODULE MaterialTrace -----------------------------
(* Histories: a material is made, its bands are calculated at related k-points *)
(* and compared with those of other constructions of the same crystal.         *)
EXTENDS Material, TraceCore

Bad(ok, name) == IF ok THEN {} ELSE {name}
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
LatOk(mt, e) ==
    CASE mt.kind = "hex60" -> Near(e.aa, e.bb, 2) /\ Near(2 * e.ab, e.aa, 3)
      [] mt.kind = "hex120" -> Near(e.aa, e.bb, 3) /\ Near(2 * e.ab, -e.aa, 3)
      [] OTHER -> Near(e.ab, 0, 2) /\ e.aa > 0 /\ e.bb > 0
MakeBad(e) ==
    LET mt == Mat[e.mat] IN
    Bad(e.n = mt.n /\ e.hop, "number_of_orbitals") \cup Bad(LatOk(mt, e), "lattice")
    \cup (IF "cc" \in DOMAIN e THEN Bad(Near(e.c, 1000 * e.cc, 2), "c_axis") ELSE {})
Paired(E, tol) == \A i \in 1..(Len(E) \div 2) : Near(E[2 * i - 1], E[2 * i], tol)
BandsBad(S, e) ==
    LET mt == Mat[S.mat]
        n == Len(e.ks)
    IN UNION {
        Bad(\A i \in 1..n : Len(e.E[i]) = mt.n, "number_of_bands"),
        Bad(\A i \in 1..n : \A j \in 1..(i - 1) :
              Related(mt.kind, e.ks[i], e.ks[j], e.kd) => NearSeq(e.E[i], e.E[j], mt.tol), "symmetry"),
        IF ~mt.soc THEN {}
        ELSE Bad(\A i \in 1..n : Invariant(e.ks[i], e.kd) \/ S.mat = "antimonene_soc"
                                   => Paired(e.E[i], mt.tol), "kramers_pairs"),
        LET sites == Sites(S.mat) IN
        Bad(\A i \in 1..n : \A p \in 1..2 : \A a, b \in 1..Len(sites) :
              LET x == SumAt(e.M[i][p], sites[a]) IN
              Near(x, SumAt(e.M[i][p], sites[b]), 2 + mt.tol + Abs(x) \div 200000),
            "equivalent_sites"),
        IF S.mat # "diamond" THEN {}
        ELSE Bad(\A i \in 1..n :
                   LET p == FMul(S.t, PiBand(e.ks[i], e.kd))
                       tol == 10 + S.t \div 400
                   IN NearSeq(e.E[i], IF p >= 0 THEN <<-p, p>> ELSE <<p, -p>>, tol), "pi_bands")}
(* sorted union of the energies of two k-points                                *)
RECURSIVE Merge(_, _)
Merge(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
               ELSE IF Head(a) <= Head(b) THEN <<Head(a)>> \o Merge(Tail(a), b)
               ELSE <<Head(b)>> \o Merge(a, Tail(b))
SameBad(S, e) ==
    CASE e.rel = "fold" ->    \* current: a rectangular cell; other: the primitive cell
           Bad(/\ Len(e.ks2) = 2 /\ e.ks[1] = FoldTo(e.ks2[1])
               /\ 2 * (e.ks2[2][2] - e.ks2[1][2]) = e.kd /\ e.ks2[1][1] = e.ks2[2][1], "driver_fold")
           \cup Bad(NearSeq(e.E[1], Merge(e.F[1], e.F[2]), 5), "folded_bands")
      [] e.rel = "equal" ->
           Bad(\A i \in 1..Len(e.ks) : NearSeq(e.E[i], e.F[i], 5), "equal_bands")
      [] OTHER ->             \* current: antimonene with vanishing coupling
           Bad(\A i \in 1..Len(e.ks) : NearSeq(e.E[i], Merge(e.F[i], e.F[i]), 5), "doubled_bands")
InitSt(case) == [mat |-> "", t |-> 0]
Edit(S, e) == IF e.op = "make" /\ e.out = "ok"
              THEN [mat |-> e.mat, t |-> IF "t" \in DOMAIN e THEN 1000 * Abs(e.t) ELSE 2700000]
              ELSE S
ResOf(e) == IF e.op = "make" /\ e.mat \notin DOMAIN Mat THEN "NotImplementedError" ELSE "ok"
Chk(S, e) ==
    LET res == ResOf(e)
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" THEN {}
             ELSE CASE e.op = "make" -> MakeBad(e)
                    [] e.op = "bands" -> BandsBad(S, e)
                    [] OTHER -> SameBad(S, e)
    IN [st |-> Edit(S, e), bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
===============================================================================
