-------------------------------- MODULE Phase --------------------------------
(* Phase factors exp(2 pi i m / 720) in units of 10^-6. All phases used by  *)
(* the checks are whole multiples of 1/720 of a turn, so that the expected  *)
(* matrices are exact up to the rounding of this table.                     *)
EXTENDS Util

CosQuarter == <<
  1000000, 999962, 999848, 999657, 999391, 999048, 998630, 998135, 997564, 996917,
  996195, 995396, 994522, 993572, 992546, 991445, 990268, 989016, 987688, 986286,
  984808, 983255, 981627, 979925, 978148, 976296, 974370, 972370, 970296, 968148,
  965926, 963630, 961262, 958820, 956305, 953717, 951057, 948324, 945519, 942641,
  939693, 936672, 933580, 930418, 927184, 923880, 920505, 917060, 913545, 909961,
  906308, 902585, 898794, 894934, 891007, 887011, 882948, 878817, 874620, 870356,
  866025, 861629, 857167, 852640, 848048, 843391, 838671, 833886, 829038, 824126,
  819152, 814116, 809017, 803857, 798636, 793353, 788011, 782608, 777146, 771625,
  766044, 760406, 754710, 748956, 743145, 737277, 731354, 725374, 719340, 713250,
  707107, 700909, 694658, 688355, 681998, 675590, 669131, 662620, 656059, 649448,
  642788, 636078, 629320, 622515, 615661, 608761, 601815, 594823, 587785, 580703,
  573576, 566406, 559193, 551937, 544639, 537300, 529919, 522499, 515038, 507538,
  500000, 492424, 484810, 477159, 469472, 461749, 453990, 446198, 438371, 430511,
  422618, 414693, 406737, 398749, 390731, 382683, 374607, 366501, 358368, 350207,
  342020, 333807, 325568, 317305, 309017, 300706, 292372, 284015, 275637, 267238,
  258819, 250380, 241922, 233445, 224951, 216440, 207912, 199368, 190809, 182236,
  173648, 165048, 156434, 147809, 139173, 130526, 121869, 113203, 104528, 95846,
  87156, 78459, 69756, 61049, 52336, 43619, 34899, 26177, 17452, 8727,
  0>>

PScale == 1000000
Cos720(m) == LET k == m % 720 IN
             IF k <= 180 THEN CosQuarter[k + 1]
             ELSE IF k <= 360 THEN -CosQuarter[361 - k]
             ELSE IF k <= 540 THEN -CosQuarter[k - 359]
             ELSE CosQuarter[721 - k]
Sin720(m) == Cos720(m - 180)
(* Gaussian integer v times exp(2 pi i m / 720), in 10^-6 *)
CTurn(v, m) == LET c == Cos720(m)
                   s == Sin720(m)
               IN <<v[1] * c - v[2] * s, v[1] * s + v[2] * c>>
CNear(u, v, tol) == Near(u[1], v[1], tol) /\ Near(u[2], v[2], tol)
=============================================================================
