------------------------------- MODULE HamTrace -------------------------------
(* Judges recorded Hamiltonians and sample arrays against Ham.               *)
EXTENDS Ham, TraceCore

Tol == 200          \* in 10^-6
MatNear(A, B, tol) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                            /\ \A j \in 1..Len(A[i]) : CNear(A[i][j], B[i][j], tol)
Div(M, f) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M) |->
                 <<M[i][j][1] \div f, M[i][j][2] \div f>>])])

HamPcBad(pc, e) ==
    IF ~PcTurnOk(pc, e.conv, e.kn, e.kd) THEN {"machinery_k_not_representable"}
    ELSE LET H == HamPc(pc, e.conv, e.kn, e.kd) IN
         (IF ~MatNear(e.dense, H, Tol) THEN {"dense_hamiltonian"} ELSE {})
         \cup (IF ~MatNear(e.csr, H, Tol) THEN {"csr_hamiltonian"} ELSE {})

(* hopping list of <<i, j, dx, dy, dz, re, im>> (re, im in 10^-6)            *)
HopListBad(s, list) ==
    LET K(t) == <<t[1], t[2], t[3], t[4], t[5]>>
        ks == {K(list[n]) : n \in 1..Len(list)}
    IN IF \/ 2 * Len(list) # Cardinality(DOMAIN s.hop)
          \/ Cardinality(ks \cup {SConj(k) : k \in ks}) # 2 * Len(list)
          \/ ~(ks \subseteq DOMAIN s.hop)
       THEN {"sample_hopping_terms"}
       ELSE IF \E n \in 1..Len(list) :
                   LET h == s.hop[K(list[n])]
                       v == CTurn(<<h[1], h[2]>>, h[3])
                   IN ~CNear(<<list[n][6], list[n][7]>>,
                             <<v[1] \div s.f, v[2] \div s.f>>, Tol)
            THEN {"sample_hopping_energies"} ELSE {}
ArrBad(s, e) ==
    (IF ~(/\ Len(e.eng) = Len(s.eng)
          /\ \A i \in 1..Len(s.eng) :
                Near(e.eng[i], (PScale * s.eng[i]) \div s.f, Tol))
     THEN {"sample_onsite_energies"} ELSE {})
    \cup (IF e.pos # s.pos THEN {"sample_positions"} ELSE {})
    \cup HopListBad(s, e.hop)
    \cup (IF e.f # s.f THEN {"rescale_factor"} ELSE {})

HamSpBad(s, e) ==
    IF ~KTurnOk(s, e.kn, e.kd) THEN {"machinery_k_not_representable"}
    ELSE LET H == SMat(Bloch(s, e.kn, e.kd)) IN
         (IF ~MatNear(e.dense, H, Tol) THEN {"dense_hamiltonian"} ELSE {})
         \cup (IF ~MatNear(e.csr, H, Tol) THEN {"csr_hamiltonian"} ELSE {})

CsrBad(s, e) ==
    LET H == Div(SMat(s), s.f)
        n == Len(s.eng)
    IN (IF ~MatNear(e.ham, H, Tol) THEN {"build_ham_csr"} ELSE {})
       \cup (IF e.dx # DMat(s, 1) \/ e.dy # DMat(s, 2) THEN {"build_dxy_csr"} ELSE {})

(* compressed rows of hop, dx, dy sharing one index structure *)
DxyBad(s, e) ==
    LET n == Len(s.eng)
        keep(i) == IF e.cut8 < 0 THEN s.eng[i] # 0
                   ELSE 8 * Abs(s.eng[i]) >= e.cut8 * s.f
        row(i) == [m \in 1..(e.indptr[i+1] - e.indptr[i]) |-> e.indptr[i] + m]
        shape == /\ Len(e.indptr) = n + 1 /\ e.indptr[1] = 0
                 /\ \A i \in 1..n : e.indptr[i] <= e.indptr[i+1]
                 /\ e.indptr[n+1] = Len(e.indices)
                 /\ Len(e.hop) = Len(e.indices) /\ Len(e.dx) = Len(e.indices)
                 /\ Len(e.dy) = Len(e.indices)
                 /\ \A m \in 1..Len(e.indices) : e.indices[m] \in 0..(n-1)
        \* expected off-diagonal entries of row i, as <<j, dx, dy, re, im>>
        D(i) == {k \in DOMAIN s.hop : k[1] = i - 1}
        val(k) == LET v == CTurn(<<s.hop[k][1], s.hop[k][2]>>, s.hop[k][3])
                  IN <<v[1] \div s.f, v[2] \div s.f>>
        match(i, m) == {k \in D(i) : k[2] = e.indices[m] /\ k[3] = e.dx[m]
                                     /\ k[4] = e.dy[m]
                                     /\ CNear(val(k), e.hop[m], Tol)}
        isdia(i, m) == /\ keep(i) /\ e.indices[m] = i - 1 /\ e.dx[m] = 0
                       /\ e.dy[m] = 0
                       /\ CNear(e.hop[m], <<(PScale * s.eng[i]) \div s.f, 0>>, Tol)
        rowok(i) == LET R == Elems(row(i))
                        dia == {m \in R : isdia(i, m)}
                    IN /\ Cardinality(R) = Cardinality(D(i)) + (IF keep(i) THEN 1 ELSE 0)
                       /\ keep(i) => dia # {}
                       /\ \A m \in R : m \in dia \/ match(i, m) # {}
                       /\ \A k \in D(i) : \E m \in R :
                              /\ k[2] = e.indices[m] /\ k[3] = e.dx[m] /\ k[4] = e.dy[m]
                              /\ CNear(val(k), e.hop[m], Tol)
        sorted == \A i \in 1..n : \A m \in (e.indptr[i]+1)..(e.indptr[i+1]-1) :
                      e.indices[m] <= e.indices[m+1]
    IN IF ~shape THEN {"dxy_structure"}
       ELSE (IF \E i \in 1..n : ~rowok(i) THEN {"dxy_rows"} ELSE {})
            \cup (IF e.sort /\ ~sorted THEN {"dxy_not_sorted"} ELSE {})

(* agreement of two matrices recorded for an arbitrary model *)
GenericBad(e) ==
    (IF ~Hermitian(e.dense, 3) THEN {"not_hermitian"} ELSE {})
    \cup (IF ~MatNear(e.dense, e.csr, 3) THEN {"dense_csr_differ"} ELSE {})

Expect(e, res) == IF e.out = res THEN {}
                  ELSE IF e.out = "ok" THEN {"error_not_raised"}
                  ELSE {"unexpected_error"}

InitSt(case) == LET w == MkModel(case.cfg) IN
                [w |-> w,
                 ov |-> IF "ov" \in DOMAIN case.cfg THEN MkPc(case.cfg.ov) ELSE <<>>,
                 s |-> IF Len(w.sp[1].sc) = 0 THEN <<>> ELSE NewSample(w)]
Chk(S, e) ==
    LET s == S.s
        res == CASE e.op = "ham_pc" ->
                      IF e.conv \notin {1, 2} THEN "ValueError"
                      ELSE IF S.w.pc[e.p].orb = <<>> THEN "PCOrbEmptyError"
                      ELSE IF DOMAIN S.w.pc[e.p].hop = {} THEN "PCHopEmptyError"
                      ELSE "ok"
                 [] e.op = "mag" -> IF e.g \in {0, 1, 2} THEN "ok" ELSE "ValueError"
                 [] e.op = "ham_sp" -> IF e.conv = 1 THEN "ok" ELSE "ValueError"
                 [] OTHER -> "ok"
        b1 == Expect(e, res)
        nx == IF res # "ok" THEN s
              ELSE CASE e.op = "rescale" -> Rescaled(s, IF e.f = 0 THEN RowMax(s) ELSE e.f)
                     [] e.op = "mag" -> Magnetic(s, e.b, e.g)
                     [] e.op = "set_k" -> Bloch(s, e.kn, e.kd)
                     [] e.op = "reset" -> ResetSample(s)
                     [] OTHER -> s
        b2 == IF e.out # "ok" THEN {}
              ELSE CASE e.op = "ham_pc" -> HamPcBad(S.w.pc[e.p], e)
                     [] e.op = "ham_ov" -> HamPcBad(S.ov, e)
                     [] e.op = "ham_sp" -> HamSpBad(s, e)
                     [] e.op \in {"arr", "load"} -> ArrBad(s, e)
                     [] e.op = "csr" -> CsrBad(s, e)
                     [] e.op = "dxy" -> DxyBad(s, e)
                     [] e.op = "generic" -> GenericBad(e)
                     [] e.op = "set_k" -> IF KTurnOk(s, e.kn, e.kd) THEN {}
                                          ELSE {"machinery_k_not_representable"}
                     [] OTHER -> {}
    IN [st |-> [S EXCEPT !.s = nx], bad |-> IF b1 # {} THEN b1 ELSE b2]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=============================================================================
