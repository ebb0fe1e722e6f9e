----------------------------- MODULE ReportTrace -----------------------------
(* Judges recorded prints, drawings and cube files against Report.            *)
EXTENDS Report, TraceCore

Tol == 200
MatNear(A, B, tol) ==
    /\ Len(A) = Len(B)
    /\ \A i \in 1..Len(A) : /\ Len(A[i]) = Len(B[i])
                            /\ \A j \in 1..Len(A[i]) : CNear(A[i][j], B[i][j], tol)
HkBad(pc, e) ==
    LET cv == IF e.conv = 0 THEN 1 ELSE e.conv IN
    IF ~PcTurnOk(pc, cv, e.kn, e.kd) THEN {"machinery_k_not_representable"}
    ELSE IF MatNear(e.ham, HamPc(pc, cv, e.kn, e.kd), Tol) THEN {} ELSE {"printed_hamiltonian"}
PrintBad(pc, e) ==
    LET rowok(r, v) == Len(r) = 3 /\ \A d \in 1..3 : r[d] = 100000 * v[d]
        orbok(r, o) == /\ Len(r) = 4 /\ r[4] = 100000 * o.e
                       /\ \A d \in 1..3 : Near(48 * r[d], 100000 * o.p[d], 48)
    IN (IF ~(Len(e.org) = 1 /\ rowok(e.org[1], pc.org)) THEN {"printed_origin"} ELSE {})
       \cup (IF ~(Len(e.lat) = 3 /\ \A d \in 1..3 : rowok(e.lat[d], pc.lat[d]))
             THEN {"printed_lattice"} ELSE {})
       \cup (IF ~(Len(e.orb) = Len(pc.orb) /\ \A i \in 1..Len(pc.orb) : orbok(e.orb[i], pc.orb[i]))
             THEN {"printed_orbitals"} ELSE {})
       \cup (IF ~HListRepr(e.hop, pc.hop) THEN {"printed_terms"} ELSE {})

(* what an axes object shows, given the expected pieces *)
AxesBad(e, lines, dots, grid, lat) ==
    LET want == Drawn(lines, e.view, e.conj, e.cut2)
    IN (IF e.arrows /\ (~SameBag(e.arr, want) \/ e.hops # <<>>) THEN {"drawn_terms"} ELSE {})
       \cup (IF ~e.arrows /\ (~SameBag(UndirSeq(e.hops), UndirSeq(want)) \/ e.arr # <<>>)
             THEN {"drawn_terms"} ELSE {})
       \cup (IF ~SameBag(e.dots, IF e.orbs THEN dots ELSE <<>>) THEN {"drawn_orbitals"} ELSE {})
       \cup (IF ~SameBag(UndirSeq(e.grid), UndirSeq(IF e.cells THEN grid ELSE <<>>))
             THEN {"drawn_cells"} ELSE {})
       \cup (IF ~SameBag(e.lat, IF e.cells THEN lat ELSE <<>>) THEN {"drawn_lattice_vectors"} ELSE {})
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
PcPlotBad(pc, e) ==
    LET box == Box(e.half, e.conj)
        lo == <<box[1][1], box[2][1], box[3][1]>>
        hi == <<box[1][2] + 1, box[2][2] + 1, box[3][2] + 1>>
        L(t) == PcLine(pc, t)
    IN IF ~HListRepr(e.half, pc.hop) THEN {"hopping_terms"}
       ELSE AxesBad(e, Map(L, e.half), PcDots(pc, box, e.view, e.col), Grid(pc, lo, hi, e.view),
                    LatArrows(pc, e.view))
Ids(n, k) == [i \in 1..n |-> k + i - 1]
ScGrid(w, s, v) == Grid(w.pc[w.sc[s].pc], <<0, 0, 0>>, w.sc[s].dim, v)
ScPlotBad(w, e) ==
    LET pos == ScP(w, e.s)
        L(t) == ArrLine(pos, t)
    IN IF ~THalf(e.half, ScH(w, e.s)) THEN {"hopping_terms"}
       ELSE AxesBad(e, Map(L, e.half), Dots(pos, IF e.col THEN Ids(Len(pos), 0) ELSE ScE(w, e.s), e.view), ScGrid(w, e.s, e.view),
                    LatArrows(w.pc[w.sc[e.s].pc], e.view))
SpPlotBad(w, e) ==
    LET pos == SpPos(w, 1)
        L(t) == ArrLine(pos, t)
        ss == w.sp[1].sc
        G(s) == ScGrid(w, s, e.view)
        A(s) == LatArrows(w.pc[w.sc[s].pc], e.view)
    IN IF ~THalf(e.half, SpHop(w, 1)) THEN {"hopping_terms"}
       ELSE AxesBad(e, Map(L, e.half), Dots(pos, IF e.col THEN Concat([i \in 1..Len(ss) |-> Ids(Len(ScE(w, ss[i])), 100 * (i - 1))])
                                               ELSE SpEng(w, 1), e.view), Concat(Map(G, ss)),
                    Concat(Map(A, ss)))

(* ------------------------------ curves ------------------------------------ *)
ModelBad(w, e) ==         \* the model drawn behind the data
    LET pos == SpPos(w, 1)
        L(t) == IF e.who = "pc" THEN PcLine(w.pc[1], t) ELSE ArrLine(pos, t)
        want == IF e.model THEN Drawn(Map(L, e.half), "ab", FALSE, 0) ELSE <<>>
        rep == \/ ~e.model
               \/ e.who = "pc" /\ HListRepr(e.half, w.pc[1].hop)
               \/ e.who = "sp" /\ THalf(e.half, SpHop(w, 1))
    IN IF ~rep THEN {"hopping_terms"}
       ELSE IF SameBag(UndirSeq(e.hops), UndirSeq(want)) THEN {} ELSE {"drawn_model"}
Col(x, y, b) == [i \in 1..Len(x) |-> <<x[i], y[i][b]>>]
Swapped(q) == [i \in 1..Len(q) |-> <<q[i][2], q[i][1]>>]
VisBad(w, e) ==
    CASE e.kind = "bands" ->
          LET want == [b \in 1..Len(e.y[1]) |-> Col(e.x, e.y, b)]
              at == [i \in 1..Len(e.idx) |-> e.x[e.idx[i] + 1]]
          IN (IF ~SameBag(e.curves, want) THEN {"drawn_curves"} ELSE {})
             \cup (IF ~SameBag(e.marks, at) THEN {"marked_k_points"} ELSE {})
             \cup (IF e.ticks # at \/ e.labs # e.lab THEN {"labelled_k_points"} ELSE {})
             \cup (IF e.xlim # <<0, MaxOf(Elems(e.x))>> THEN {"range_of_axis"} ELSE {})
      [] e.kind \in {"xy", "dos"} ->
          (IF e.curves # <<[i \in 1..Len(e.x) |-> <<e.x[i], e.y[i]>>]>> THEN {"drawn_curves"} ELSE {})
          \cup (IF e.rlim # e.lim THEN {"range_of_axis"} ELSE {})
      [] e.kind = "phases" ->
          LET want == [b \in 1..Len(e.y[1]) |->
                          IF e.polar THEN Swapped(Col(e.x, e.y, b)) ELSE Col(e.x, e.y, b)]
          IN IF SameBag(e.curves, want) THEN {} ELSE {"drawn_curves"}
      [] e.kind = "vector" ->
          (IF e.arr # [i \in 1..Len(e.x) |-> <<e.x[i], e.y[i], e.u[i], e.v[i]>>]
           THEN {"drawn_vectors"} ELSE {}) \cup ModelBad(w, e)
      [] e.kind = "scatter" ->
          (IF e.dots # [i \in 1..Len(e.x) |-> <<e.x[i], e.y[i], e.z[i]>>]
           THEN {"drawn_points"} ELSE {}) \cup ModelBad(w, e)
      [] e.kind = "wfc" ->
          LET n == IF e.who = "pc" THEN Len(w.pc[1].orb) ELSE Len(SpPos(w, 1))
              pos == IF e.who = "pc" THEN [i \in 1..n |-> CartPos(w.pc[1], i - 1)] ELSE SpPos(w, 1)
              val == [i \in 1..n |-> e.z[((i - 1) % Len(e.z)) + 1]]
          IN (IF ~SameBag(e.dots, Dots(pos, val, "ab")) THEN {"drawn_points"} ELSE {})
             \cup ModelBad(w, e)
      [] e.kind = "image" ->
          LET x0 == MinOf(Elems(e.x))
              x1 == MaxOf(Elems(e.x))
              y0 == MinOf(Elems(e.y))
              y1 == MaxOf(Elems(e.y))
              nx == e.grid[1]
              ny == e.grid[2]
              \* the field is z = cf1 x + cf2 y + cf3
              val(i, j) == ONE * (e.cf[1] * x0 + e.cf[2] * y0 + e.cf[3])
                           + RDiv(ONE * e.cf[1] * (x1 - x0) * i, nx - 1)
                           + RDiv(ONE * e.cf[2] * (y1 - y0) * j, ny - 1)
              row(j) == IF e.lower THEN j ELSE ny - 1 - j
              brd(i, j) == i \in {0, nx - 1} \/ j \in {0, ny - 1}
              ok == /\ Len(e.data) = ny
                    /\ \A j \in 0..(ny - 1) : Len(e.data[j + 1]) = nx
                    /\ \A j \in 0..(ny - 1), i \in 0..(nx - 1) :
                          \/ Near(e.data[row(j) + 1][i + 1], val(i, j), 300)
                          \/ brd(i, j) /\ e.data[row(j) + 1][i + 1] = 2000000001
          IN (IF ~ok THEN {"drawn_image"} ELSE {})
             \cup (IF e.ext # <<x0, x1, y0, y1>> THEN {"extent_of_image"} ELSE {})
             \cup ModelBad(w, e)

(* ------------------------------- cubes ------------------------------------ *)
To6(p) == [d \in 1..3 |-> (p[d] * 62500) \div 3]      \* 1/48 bohr
NM6 == 18897261
CubeBad(e) ==
    LET cell == e.cell
        bare == [i \in 1..Len(cell.orb) |-> BarePos(<<0, 0, 0, i - 1>>, cell)]
        sc == [dim |-> e.dim, vac |-> {}, pm |-> 0]
        ids == OrbIds(sc, Len(cell.orb))
        pos == IF e.dim = <<>> THEN bare ELSE ScPos(sc, cell, ids)
        lat == IF e.dim = <<>> THEN cell.lat ELSE ScLat(sc, cell)
        n == Len(pos)
        rm == IF e.rnmax = <<>> THEN <<0, 0, 0>> ELSE e.rnmax
        Rs == SetSeq({<<a, b, d>> : a \in -rm[1]..rm[1], b \in -rm[2]..rm[2], d \in -rm[3]..rm[3]})
        lo(d) == MinOf({pos[i][d] : i \in 1..n})
        hi(d) == MaxOf({pos[i][d] : i \in 1..n})
        org == IF e.org6 # <<>> THEN e.org6 ELSE To6(<<lo(1), lo(2), lo(3)>>)
        size(d) == IF e.size6 # <<>> THEN e.size6[d]
                   ELSE Max2(NM6, To6(<<hi(1) - lo(1), hi(2) - lo(2), hi(3) - lo(3)>>)[d])
        num == <<size(1) \div e.res6, size(2) \div e.res6, size(3) \div e.res6>>
        at(i, R) == To6(VAdd(pos[i], VScale(48, VMat(R, lat))))
        turn(i, R) == IF e.kd = 0 THEN 0
                      ELSE (15 * Dot(e.kn, VAdd(VScale(48, R), IF e.conv = 2 THEN Zero3
                                                               ELSE cell.orb[i].p))) \div e.kd
        rep == e.kd = 0 \/ \A i \in 1..n : (15 * Dot(e.kn, cell.orb[i].p)) % e.kd = 0
        fac == TLCEval([i \in 1..n |-> TLCEval([m \in 1..Len(Rs) |-> CTurn(e.wfc[i], turn(i, Rs[m]))])])
        nrm == FSqrt(Len(Rs) * ONE)
        psi(p) ==
            LET g == <<org[1] + p[1] * e.res6, org[2] + p[2] * e.res6, org[3] + p[3] * e.res6>>
                F(i) == LET G(m) == CScale(AtomPsi(e.qn[i], VSub(g, at(i, Rs[m]))), fac[i][m])
                        IN CSumTo(G, Len(Rs))
                s == CSumTo(F, n)
            IN <<FDiv(s[1], nrm), FDiv(s[2], nrm)>>
        val(p) == LET z == psi(p) IN CASE e.kind = "real" -> z[1] [] e.kind = "imag" -> z[2]
                                       [] e.kind = "abs2" -> CAbs2(z)
        tol(v) == 150 + Abs(v) \div 2000
        atoms == {<<e.qn[i][1]>> \o at(i, Rs[m]) : i \in 1..n, m \in 1..Len(Rs)}
        asame(a, x) == /\ a[1] = x[1] /\ a[2] = ONE * x[1]
                       /\ \A d \in 1..3 : Near(a[2 + d], x[1 + d], 3)
    IN IF ~rep THEN {"machinery_k_not_representable"}
       ELSE (IF e.num # num THEN {"cube_dimensions"} ELSE {})
            \cup (IF \E d \in 1..3 : ~Near(e.org[d], org[d], 3) THEN {"cube_origin"} ELSE {})
            \cup (IF \E i \in 1..3, j \in 1..3 :
                        ~Near(e.step[i][j], IF i = j THEN e.res6 ELSE 0, 2)
                  THEN {"cube_axes"} ELSE {})
            \cup (IF \/ e.nat # Len(e.atoms)
                     \/ \E i \in 1..Len(e.atoms) : ~\E x \in atoms : asame(e.atoms[i], x)
                     \/ \E x \in atoms : ~\E i \in 1..Len(e.atoms) : asame(e.atoms[i], x)
                  THEN {"cube_atoms"} ELSE {})
            \cup (IF e.nval # e.num[1] * e.num[2] * e.num[3] THEN {"cube_number_of_values"} ELSE {})
            \cup (IF \E q \in 1..Len(e.pts) : LET v == val(e.pts[q]) IN
                                             ~Near(e.pts[q][4], v, tol(v))
                  THEN {"cube_values"} ELSE {})
            \cup (IF ~e.intact THEN {"arguments_modified"} ELSE {})

Expect(e, res) == IF e.out \in res THEN {}
                  ELSE IF e.out = "ok" THEN {"error_not_raised"}
                  ELSE {"unexpected_error"}
InitSt(case) == IF case.cfg.pcs = <<>> THEN <<>> ELSE MkModel(case.cfg)
Edited(w, e) ==
    IF e.what = "hop"
    THEN [w EXCEPT !.pc[e.p].hop = HPut(@, <<e.t[1], e.t[2], e.t[3], e.t[4], e.t[5]>>,
                                        <<e.t[6], e.t[7]>>)]
    ELSE [w EXCEPT !.pc[e.p].orb[e.i + 1].e = e.e]
Chk(S, e) ==
    LET res == CASE e.op = "hk" ->
                      LET errs == (IF e.conv \notin {0, 1, 2} THEN {"ValueError"} ELSE {})
                             \cup (IF S.pc[e.p].orb = <<>> THEN {"PCOrbEmptyError"} ELSE {})
                             \cup (IF DOMAIN S.pc[e.p].hop = {} THEN {"PCHopEmptyError"} ELSE {})
                      IN IF errs = {} THEN {"ok"} ELSE errs
                 [] e.op \in {"pcplot", "scplot", "spplot"} ->
                      IF e.view \in Views THEN {"ok"} ELSE {"ValueError"}
                 [] OTHER -> {"ok"}
        b1 == Expect(e, res)
        b2 == IF e.out # "ok" THEN {}
              ELSE CASE e.op = "hk" -> HkBad(S.pc[e.p], e)
                     [] e.op = "print" -> PrintBad(S.pc[e.p], e)
                     [] e.op = "pcplot" -> PcPlotBad(S.pc[e.p], e)
                     [] e.op = "scplot" -> ScPlotBad(S, e)
                     [] e.op = "spplot" -> SpPlotBad(S, e)
                     [] e.op = "vis" -> VisBad(S, e)
                     [] e.op = "cube" -> CubeBad(e)
                     [] OTHER -> {}
        nx == IF e.op = "edit" THEN Edited(S, e) ELSE S
    IN [st |-> nx, bad |-> IF b1 # {} THEN b1 ELSE b2]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
==============================================================================
