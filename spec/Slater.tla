-------------------------------- MODULE Slater --------------------------------
(* Two-center integrals and spin-orbit coupling, coordinate free.            *)
(* A p orbital is a unit vector, a d orbital the quadratic form Q = s T / 2  *)
(* with an integer tensor T and s = 1 (dz2) or sqrt(3) (the others).         *)
(* For a displacement r of integer length n all integrals are exact in       *)
(* Z[sqrt 3] when the parameters are multiples of 12 n^4.                     *)
EXTENDS Util

PLabs == {"px", "py", "pz"}
DLabs == {"dxy", "dyz", "dzx", "dx2-y2", "dz2"}
Labs == {"s"} \cup PLabs \cup DLabs
AngL(lab) == CASE lab = "s" -> 0 [] lab \in PLabs -> 1 [] lab \in DLabs -> 2
Axis(lab) == CASE lab = "px" -> 1 [] lab = "py" -> 2 [] lab = "pz" -> 3
T(lab) == CASE lab = "dxy" -> <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 0>>>>
            [] lab = "dyz" -> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>>>
            [] lab = "dzx" -> <<<<0, 0, 1>>, <<0, 0, 0>>, <<1, 0, 0>>>>
            [] lab = "dx2-y2" -> <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 0>>>>
            [] lab = "dz2" -> <<<<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 2>>>>
(* s^2 *)
S2(lab) == IF lab = "dz2" THEN 1 ELSE 3
MV(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Contr(m, k) == Dot(m[1], k[1]) + Dot(m[2], k[2]) + Dot(m[3], k[3])
MM(a, b) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |->
                a[i][1]*b[1][j] + a[i][2]*b[2][j] + a[i][3]*b[3][j]])])

(* ------------------------------ Z[sqrt 3] --------------------------------- *)
(* <<a, b>> = a + b sqrt(3) *)
R(a) == <<a, 0>>
RAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
RSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
RMul(x, y) == <<x[1]*y[1] + 3*x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>
RK(k, x) == <<k*x[1], k*x[2]>>
(* s(lab) * a *)
SMul(lab, a) == IF lab = "dz2" THEN <<a, 0>> ELSE <<0, a>>
SSMul(la, lb, a) == LET p == S2(la) * S2(lb)
                    IN CASE p = 9 -> <<3*a, 0>> [] p = 3 -> <<0, a>> [] p = 1 -> <<a, 0>>

(* ------------------------- two-center integrals --------------------------- *)
(* coefficients of (sigma, pi, delta) times 12 n^4, for r of length n        *)
SPc(r, n, lb) == <<R(12*n*n*n*r[Axis(lb)]), R(0), R(0)>>
SDc(r, n, lb) == <<SMul(lb, 6*n*n*Dot(r, MV(T(lb), r))), R(0), R(0)>>
PPc(r, n, la, lb) ==
    LET a == r[Axis(la)]
        b == r[Axis(lb)]
    IN <<R(12*n*n*a*b), R(12*n*n*((IF la = lb THEN n*n ELSE 0) - a*b)), R(0)>>
PDc(r, n, la, lb) ==
    LET a == r[Axis(la)]
        u == MV(T(lb), r)[Axis(la)]
        t == Dot(r, MV(T(lb), r))
        p == n*(u*n*n - a*t)                \* n^4 (u_a - d_a t)
    IN <<SMul(lb, 6*n*a*t), IF lb = "dz2" THEN <<0, 4*p>> ELSE R(12*p), R(0)>>
DDc(r, n, la, lb) ==
    LET ua == MV(T(la), r)
        ub == MV(T(lb), r)
        tt == Dot(r, ua) * Dot(r, ub)
        uu == n*n*Dot(ua, ub)
        cc == n*n*n*n*Contr(T(la), T(lb))
    IN <<SSMul(la, lb, 3*tt), SSMul(la, lb, 4*(uu - tt)), SSMul(la, lb, 2*cc + tt - 4*uu)>>
(* V.ss .. V.ddd are <<re, im>>; the value is <<re, im>> in Z[sqrt 3], for    *)
(* parameters 12 n^4 V                                                        *)
Lin(co, V) == <<RAdd(RAdd(RK(V[1][1], co[1]), RK(V[2][1], co[2])), RK(V[3][1], co[3])),
                RAdd(RAdd(RK(V[1][2], co[1]), RK(V[2][2], co[2])), RK(V[3][2], co[3]))>>
CJ(z) == <<z[1], RK(-1, z[2])>>
O == <<0, 0>>
RECURSIVE Integral(_, _, _, _, _)
Integral(r, n, la, lb, V) ==
    LET x == AngL(la)
        y == AngL(lb)
    IN IF x > y THEN CJ(Integral(VNeg(r), n, lb, la, V))
       ELSE CASE x = 0 /\ y = 0 -> <<RK(12*n*n*n*n, R(V.sss[1])), RK(12*n*n*n*n, R(V.sss[2]))>>
              [] x = 0 /\ y = 1 -> Lin(SPc(r, n, lb), <<V.sps, O, O>>)
              [] x = 0 /\ y = 2 -> Lin(SDc(r, n, lb), <<V.sds, O, O>>)
              [] x = 1 /\ y = 1 -> Lin(PPc(r, n, la, lb), <<V.pps, V.ppp, O>>)
              [] x = 1 /\ y = 2 -> Lin(PDc(r, n, la, lb), <<V.pds, V.pdp, O>>)
              [] OTHER          -> Lin(DDc(r, n, la, lb), <<V.dds, V.ddp, V.ddd>>)

(* a + b sqrt(3) as an integer *)
Sq3(b) == LET m == Abs(b)
              w == m + (m \div 1000) * 732 + ((m % 1000) * 732) \div 1000
                   + ((m \div 1000) * 51) \div 1000
          IN IF b < 0 THEN -w ELSE w
RVal(x) == x[1] + Sq3(x[2])

(* --------------------------- angular momentum ------------------------------ *)
Eps(i, j, k) == CASE <<i, j, k>> \in {<<1,2,3>>, <<2,3,1>>, <<3,1,2>>} -> 1
                  [] <<i, j, k>> \in {<<3,2,1>>, <<2,1,3>>, <<1,3,2>>} -> -1
                  [] OTHER -> 0
Gen(k) == [i \in 1..3 |-> [j \in 1..3 |-> -Eps(k, i, j)]]
(* 6 <a|L_k|b> / i, a number in Z[sqrt 3] *)
L6(k, la, lb) ==
    IF AngL(la) # AngL(lb) \/ AngL(la) = 0 THEN R(0)
    ELSE IF AngL(la) = 1 THEN R(-6 * Eps(k, Axis(la), Axis(lb)))
    ELSE LET A == Gen(k)
             C == MM(A, T(lb))
             D == MM(T(lb), A)
         IN SSMul(la, lb, Contr(T(la), C) - Contr(T(la), D))
(* 12 <a,sa| L.S |b,sb> as <<re, im>> *)
LS12(la, sa, lb, sb) ==
    LET x == L6(1, la, lb)
        y == L6(2, la, lb)
        z == L6(3, la, lb)
    IN CASE <<sa, sb>> = <<"up", "up">> -> <<R(0), z>>
         [] <<sa, sb>> = <<"down", "down">> -> <<R(0), RK(-1, z)>>
         [] <<sa, sb>> = <<"up", "down">> -> <<y, x>>           \* i x - i (i y)
         [] <<sa, sb>> = <<"down", "up">> -> <<RK(-1, y), x>>
=============================================================================
