-------------------------------- MODULE Report --------------------------------
(* What is shown of a model: printed Hamiltonians and listings, drawings of   *)
(* cells, supercells and samples, curves, and wave functions on a grid.       *)
EXTENDS Ham, Fx

(* ------------------------------- drawings --------------------------------- *)
Views == {"ab", "ba", "bc", "cb", "ca", "ac"}
Axes2(v) == CASE v = "ab" -> <<1, 2>> [] v = "ba" -> <<2, 1>> [] v = "bc" -> <<2, 3>>
              [] v = "cb" -> <<3, 2>> [] v = "ca" -> <<3, 1>> [] v = "ac" -> <<1, 3>>
Proj(v, p) == LET a == Axes2(v) IN <<p[a[1]], p[a[2]]>>
Seg(v, p, q) == Proj(v, p) \o Proj(v, q)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Undir(s) == IF Before(<<s[1], s[2]>>, <<s[3], s[4]>>) THEN s ELSE <<s[3], s[4], s[1], s[2]>>
UndirSeq(q) == [i \in 1..Len(q) |-> Undir(q[i])]
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A x \in Elems(p) \cup Elems(q) : Count(p, x) = Count(q, x)

(* terms as <<start, end, |v|^2>>, the conjugate of each next to it *)
CartPos(pc, i) == BarePos(<<0, 0, 0, i>>, pc)
PcLine(pc, t) == LET R == VScale(48, VMat(<<t[1], t[2], t[3]>>, pc.lat)) IN
    [p |-> CartPos(pc, t[4]), q |-> VAdd(CartPos(pc, t[5]), R),
     p2 |-> CartPos(pc, t[5]), q2 |-> VSub(CartPos(pc, t[4]), R),
     n |-> t[6] * t[6] + t[7] * t[7]]
ArrLine(pos, t) == LET d == <<t[5], t[6], t[7]>> IN
    [p |-> pos[t[1]+1], q |-> VAdd(pos[t[1]+1], d),
     p2 |-> pos[t[2]+1], q2 |-> VSub(pos[t[2]+1], d),
     n |-> t[3] * t[3] + t[4] * t[4]]
Shown(lines, cut2) == SelectSeq(lines, LAMBDA x : 4 * x.n >= cut2 * cut2)
Drawn(lines, v, conj, cut2) ==
    LET s == Shown(lines, cut2)
        a == [i \in 1..Len(s) |-> Seg(v, s[i].p, s[i].q)]
        b == [i \in 1..Len(s) |-> Seg(v, s[i].p2, s[i].q2)]
    IN IF conj THEN a \o b ELSE a
(* cells shown with a primitive cell: those its terms reach, and its own *)
Box(half, conj) ==
    [d \in 1..3 |->
        LET S == {0} \cup {half[i][d] : i \in 1..Len(half)}
                 \cup (IF conj THEN {-half[i][d] : i \in 1..Len(half)} ELSE {})
        IN <<MinOf(S), MaxOf(S)>>]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE
                                      IN <<x>> \o SetSeq(S \ {x})
PcDots(pc, box, v, col) ==
    LET R == SetSeq({<<a, b, d>> : a \in box[1][1]..box[1][2], b \in box[2][1]..box[2][2],
                                   d \in box[3][1]..box[3][2]})
        dot(r, i) == Proj(v, VAdd(CartPos(pc, i - 1), VScale(48, VMat(r, pc.lat))))
                     \o <<IF col THEN i - 1 ELSE pc.orb[i].e>>
    IN Concat([m \in 1..Len(R) |-> [i \in 1..Len(pc.orb) |-> dot(R[m], i)]])
Dots(pos, eng, v) == [i \in 1..Len(pos) |-> Proj(v, pos[i]) \o <<eng[i]>>]
(* border lines of the cells lo..hi-1 in the plane of the view *)
Grid(pc, lo, hi, v) ==
    LET a == Min2(Axes2(v)[1], Axes2(v)[2])
        b == Max2(Axes2(v)[1], Axes2(v)[2])
        at(m, n) == VAdd(VScale(48, pc.org),
                         VScale(48, VAdd(VScale(m, pc.lat[a]), VScale(n, pc.lat[b]))))
    IN [m \in 1..(hi[a] - lo[a] + 1) |-> Seg(v, at(lo[a] + m - 1, lo[b]), at(lo[a] + m - 1, hi[b]))]
       \o [m \in 1..(hi[b] - lo[b] + 1) |-> Seg(v, at(lo[a], lo[b] + m - 1), at(hi[a], lo[b] + m - 1))]
LatArrows(pc, v) ==
    LET o == VScale(48, pc.org)
        e(d) == VAdd(o, VScale(48, pc.lat[d]))
    IN <<Seg(v, o, e(Axes2(v)[1])), Seg(v, o, e(Axes2(v)[2]))>>

(* --------------------------- atomic orbitals ------------------------------ *)
(* real spherical harmonics: square of the factor n / (d pi), monomials       *)
Harm(ll, m) ==
  CASE ll = 0 -> [n |-> 1, d |-> 4, p |-> <<<<1, 0, 0, 0>>>>]
    [] ll = 1 -> [n |-> 3, d |-> 4,
                 p |-> CASE m = -1 -> <<<<1, 0, 1, 0>>>> [] m = 0 -> <<<<1, 0, 0, 1>>>>
                         [] m = 1 -> <<<<1, 1, 0, 0>>>>]
    [] ll = 2 -> (CASE m = -2 -> [n |-> 15, d |-> 4, p |-> <<<<1, 1, 1, 0>>>>]
                  [] m = -1 -> [n |-> 15, d |-> 4, p |-> <<<<1, 0, 1, 1>>>>]
                  [] m = 0 -> [n |-> 5, d |-> 16,
                               p |-> <<<<2, 0, 0, 2>>, <<-1, 2, 0, 0>>, <<-1, 0, 2, 0>>>>]
                  [] m = 1 -> [n |-> 15, d |-> 4, p |-> <<<<1, 1, 0, 1>>>>]
                  [] m = 2 -> [n |-> 15, d |-> 16, p |-> <<<<1, 2, 0, 0>>, <<-1, 0, 2, 0>>>>])
    [] ll = 3 -> (CASE m = -3 -> [n |-> 35, d |-> 32, p |-> <<<<3, 2, 1, 0>>, <<-1, 0, 3, 0>>>>]
                  [] m = -2 -> [n |-> 105, d |-> 4, p |-> <<<<1, 1, 1, 1>>>>]
                  [] m = -1 -> [n |-> 21, d |-> 32,
                                p |-> <<<<4, 0, 1, 2>>, <<-1, 2, 1, 0>>, <<-1, 0, 3, 0>>>>]
                  [] m = 0 -> [n |-> 7, d |-> 16,
                               p |-> <<<<2, 0, 0, 3>>, <<-3, 2, 0, 1>>, <<-3, 0, 2, 1>>>>]
                  [] m = 1 -> [n |-> 21, d |-> 32,
                               p |-> <<<<4, 1, 0, 2>>, <<-1, 3, 0, 0>>, <<-1, 1, 2, 0>>>>]
                  [] m = 2 -> [n |-> 105, d |-> 16, p |-> <<<<1, 2, 0, 1>>, <<-1, 0, 2, 1>>>>]
                  [] m = 3 -> [n |-> 35, d |-> 32, p |-> <<<<1, 3, 0, 0>>, <<-3, 1, 2, 0>>>>])
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
Binom(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
(* radial factors for Z = 1 in 10^-8: (2/n)^(3/2) sqrt((n-l-1)!/(2n (n+l)!))  *)
K8(n, ll) == CASE n = 1 -> 200000000
              [] n = 2 -> <<35355339, 20412415>>[ll + 1]
              [] n = 3 -> <<12830006, 4536092, 2028602>>[ll + 1]
              [] n = 4 -> <<6250000, 1613743, 465847, 176074>>[ll + 1]
(* coefficients of the Laguerre polynomial, times i! *)
LagC(k, al, i) == (IF i % 2 = 0 THEN 1 ELSE -1) * Binom(k + al, k - i)
Z32(z) == <<1000000, 2828427, 5196152>>[z]
RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN ONE ELSE FMul(x, FPow(x, n - 1))
RECURSIVE LagSum(_, _, _, _, _)
LagSum(rho, t, k, al, i) ==      \* t = e^(-rho/4) rho^l rho^i / i!
    IF i > k THEN 0
    ELSE LagC(k, al, i) * t + LagSum(rho, FMul(t, rho) \div (i + 1), k, al, i + 1)
RECURSIVE MulPow(_, _, _)
MulPow(t, x, n) == IF n = 0 THEN t ELSE MulPow(FMul(t, x), x, n - 1)
Radial(z, n, ll, r) ==
    LET rho == (2 * z * r) \div n
        h == FExpN(rho \div 4)      \* half of the exponential last, to keep its digits
        q == LagSum(rho, MulPow(h, rho, ll), n - ll - 1, 2 * ll + 1, 0)
    IN FMul(RDiv(FMul(K8(n, ll), FMul(q, h)), 100), Z32(z))
Angular(ll, m, u) ==
    LET h == Harm(ll, m)
        N == FSqrt(FDiv(h.n * ONE, FMul(h.d * ONE, PI6)))
        F(i) == h.p[i][1] * FMul(FPow(u[1], h.p[i][2]), FMul(FPow(u[2], h.p[i][3]),
                                                             FPow(u[3], h.p[i][4])))
    IN FMul(N, SumTo(F, Len(h.p)))
(* quantum numbers <<z, n, l, m>> at the displacement d (10^-6 bohr) *)
Norm3(d) == FSqrt(FMul(d[1], d[1]) + FMul(d[2], d[2]) + FMul(d[3], d[3]))
Length(d) ==             \* scaled up when short, to keep its digits
    LET m == Max2(Abs(d[1]), Max2(Abs(d[2]), Abs(d[3])))
        k == IF m < 20000 THEN 1000 ELSE IF m < ONE THEN 20 ELSE 1
    IN IF m = 0 THEN 0 ELSE RDiv(Norm3(VScale(k, d)), k)
AtomPsi(qn, d) ==
    LET r == Length(d)
        u == IF r = 0 THEN <<0, 0, 0>>
             ELSE <<FDiv(d[1], r), FDiv(d[2], r), FDiv(d[3], r)>>
    IN FMul(Radial(qn[1], qn[2], qn[3], r), Angular(qn[3], qn[4], u))
===============================================================================
