---------------------------------- MODULE Fx ----------------------------------
(* Fixed-point real and complex arithmetic in units of 10^-6 for quantities   *)
(* below about 10^3; every operation is accurate to a few units.             *)
EXTENDS Phase

ONE == 1000000
FMul(a, b) ==
    LET ah == a \div 1000
        al == a % 1000
        bh == b \div 1000
        bl == b % 1000
    IN ah * bh + (ah * bl + al * bh + (al * bl) \div 1000 + 500) \div 1000
RECURSIVE FDigits(_, _, _, _)
FDigits(r, b, n, acc) ==
    IF n = 0 THEN IF 2 * r >= b THEN acc + 1 ELSE acc
    ELSE FDigits((10 * r) % b, b, n - 1, 10 * acc + (10 * r) \div b)
RECURSIVE FDivP(_, _)
FDivP(a, b) ==           \* a >= 0, b > 0
    IF b > 100000000 THEN FDivP(a \div 10, b \div 10)
    ELSE FDigits(a % b, b, 6, a \div b)
FDiv(a, b) == IF b < 0 THEN (IF a < 0 THEN FDivP(-a, -b) ELSE -FDivP(a, -b))
              ELSE IF a < 0 THEN -FDivP(-a, b) ELSE FDivP(a, b)
(* round(a / n) for a whole number n > 0 *)
RDiv(a, n) == (a + n \div 2) \div n

ExpInt == <<1000000, 367879, 135335, 49787, 18316, 6738, 2479, 912, 335, 123, 45, 17, 6, 2, 1, 0>>
ExpTen == <<1000000, 904837, 818731, 740818, 670320, 606531, 548812, 496585, 449329, 406570>>
ExpHun == <<1000000, 990050, 980199, 970446, 960789, 951229, 941765, 932394, 923116, 913931>>
(* exp(-x) for x >= 0 *)
FExpN(x) ==
    IF x >= 15 * ONE THEN 0
    ELSE LET i == x \div ONE
             j == (x \div 100000) % 10
             h == (x \div 10000) % 10
             r == x % 10000
             s == ONE - r + FMul(r, r) \div 2
         IN FMul(ExpInt[i + 1], FMul(FMul(ExpTen[j + 1], ExpHun[h + 1]), s))
(* 1 / (exp(x) + 1) *)
FFermi(x) == IF x >= 0 THEN LET t == FExpN(x) IN FDiv(t, ONE + t)
             ELSE LET t == FExpN(-x) IN FDiv(ONE, ONE + t)
(* square root by bisection *)
RECURSIVE FSqrtB(_, _, _)
FSqrtB(a, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN
                          IF FMul(m, m) <= a THEN FSqrtB(a, m, hi)
                          ELSE FSqrtB(a, lo, m)
FSqrt(a) == FSqrtB(a, 0, 46000000)
PI6 == 3141593

CMul(u, v) == <<FMul(u[1], v[1]) - FMul(u[2], v[2]),
                FMul(u[1], v[2]) + FMul(u[2], v[1])>>
CConjMul(u, v) == <<FMul(u[1], v[1]) + FMul(u[2], v[2]),
                    FMul(u[1], v[2]) - FMul(u[2], v[1])>>       \* conj(u) v
CPlus(u, v) == <<u[1] + v[1], u[2] + v[2]>>
CMinus(u, v) == <<u[1] - v[1], u[2] - v[2]>>
CScale(a, u) == <<FMul(a, u[1]), FMul(a, u[2])>>
CAbs2(u) == FMul(u[1], u[1]) + FMul(u[2], u[2])
CZero == <<0, 0>>
(* u / v *)
CDiv(u, v) == LET n == CAbs2(v)
                  p == CConjMul(v, u)
              IN <<FDiv(p[1], n), FDiv(p[2], n)>>
RECURSIVE CSumTo(_, _)
CSumTo(F(_), n) == IF n = 0 THEN CZero
                   ELSE LET f == F(n) IN CPlus(CSumTo(F, n - 1), f)
(* matrix times vector, conj(u).v *)
MVec(M, v) == TLCEval([i \in 1..Len(M) |-> LET F(j) == CMul(M[i][j], v[j]) IN CSumTo(F, Len(v))])
VDot(u, v) == LET F(i) == CConjMul(u[i], v[i]) IN CSumTo(F, Len(u))
===============================================================================
