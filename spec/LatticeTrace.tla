----------------------------- MODULE LatticeTrace -----------------------------
EXTENDS Lattice, TraceCore

V3Near(u, v, tol) == Len(u) = 3 /\ \A i \in 1..3 : Near(u[i], v[i], tol)
ListNear(A, B, tol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : V3Near(A[i], B[i], tol)

GeoBad(L, e) ==
    (IF e.rec # RecipDet(L) THEN {"reciprocal_vectors"} ELSE {})
    \cup (IF e.area2 # <<Area2(L, 1), Area2(L, 2), Area2(L, 3)>> THEN {"area"} ELSE {})
    \cup (IF e.vol # Volume(L) THEN {"volume"} ELSE {})
ScaledLat(L, n) == <<VScale(n[1], L[1]), VScale(n[2], L[2]), VScale(n[3], L[3])>>

LatVecBad(e) ==     \* metric of generated lattice vectors, in 10^-6
    LET d(i, j) == e.met[i][j]
        cs(m) == Cos720(2 * m)
    IN (IF ~(/\ Near(d(1,1), e.a * e.a * PScale, 20) /\ Near(d(2,2), e.b * e.b * PScale, 20)
             /\ Near(d(3,3), e.c * e.c * PScale, 20))
        THEN {"lattice_constants"} ELSE {})
       \cup (IF ~(/\ Near(d(2,3), e.b * e.c * cs(e.al), 60)
                  /\ Near(d(3,1), e.a * e.c * cs(e.be), 60)
                  /\ Near(d(1,2), e.a * e.b * cs(e.ga), 60))
             THEN {"lattice_angles"} ELSE {})
       \cup (IF ~(/\ Near(e.v[1][1], e.a * PScale, 20) /\ e.v[1][2] = 0 /\ e.v[1][3] = 0
                  /\ e.v[2][2] > 0 /\ e.v[2][3] = 0 /\ e.v[3][3] > 0)
             THEN {"lattice_orientation"} ELSE {})

ResOf(e) ==
    CASE e.op = "kmesh" -> IF Len(e.n) = 3 THEN "ok" ELSE "ValueError"
      [] e.op = "kpath" -> IF Len(e.num) + 1 = Len(e.hs) THEN "ok" ELSE "ValueError"
      [] e.op = "rotate" -> IF e.ax \in {"x", "y", "z"} /\ Len(e.ctr) = 3 THEN "ok"
                            ELSE "ValueError"
      [] e.op = "area" -> IF e.dir \in {"a", "b", "c"} THEN "ok" ELSE "ValueError"
      [] OTHER -> "ok"
ValBad(e) ==
    CASE e.op = "frac2cart" ->
            IF e.res # [i \in 1..Len(e.pts) |-> Frac2Cart(e.lat, e.pts[i], e.org, 48)]
            THEN {"frac2cart"} ELSE {}
      [] e.op = "cart2frac" ->     \* res: det * fractional coordinate
            IF e.res # [i \in 1..Len(e.pts) |->
                           VScale(Sgn(Det3(e.lat)), FracDet(e.lat, VSub(e.pts[i], e.org)))]
            THEN {"cart2frac"} ELSE {}
      [] e.op = "geo" -> GeoBad(e.lat, e)
      [] e.op = "geo_pc" -> GeoBad(e.lat, e)
      [] e.op = "geo_sc" -> GeoBad(ScaledLat(e.lat, e.dim), e)
      [] e.op = "kmesh" -> IF e.res # KMesh(e.n) THEN {"kmesh"} ELSE {}
      [] e.op = "kpath" ->
            (IF e.res # KPath(e.hs, e.num) THEN {"kpath"} ELSE {})
            \cup (IF e.idx # HsIndex(e.num) THEN {"hs_index"} ELSE {})
      [] e.op = "kdist" ->        \* step2: squared increments
            (IF Len(e.step2) # Len(e.pts) - 1 \/ e.first # 0 \/ ~e.mono
             THEN {"kdist_shape"}
             ELSE IF \E i \in 1..(Len(e.pts) - 1) :
                        e.step2[i] # KLen2(e.lat, VSub(e.pts[i+1], e.pts[i]))
             THEN {"kdist"} ELSE {})
      [] e.op = "rotate" ->
            IF ~ListNear(e.res, [i \in 1..Len(e.pts) |-> Rot(e.pts[i], e.m, e.ax, e.ctr)], 60)
            THEN {"rotate_coord"} ELSE {}
      [] e.op = "latvec" -> LatVecBad(e)
      [] OTHER -> {}
InitSt(case) == 0
Chk(s, e) ==
    LET res == ResOf(e)
        bad == IF e.out # res
               THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
               ELSE IF e.out = "ok" THEN ValBad(e) ELSE {}
    IN [st |-> 0, bad |-> bad]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
=============================================================================
