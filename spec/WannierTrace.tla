----------------------------- MODULE WannierTrace -----------------------------
(* Conversions of a set of Wannier90 files into a cell.                        *)
EXTENDS Wannier, TraceCore

BOHR == 5291772                            \* Angstrom, in 10^-7
LatOk(F, a) ==
    /\ Len(a) = 3
    /\ \A i, j \in 1..3 :
         LET x == F.lat[i][j] * (IF F.unit \in {"Bohr", "bohr"} THEN BOHR ELSE 10000000)
         IN Near(a[i][j], (x + 5) \div 10, 3)
(* positions of the lines labelled X, in the order of the file                 *)
RECURSIVE Centres(_)
Centres(xs) == IF xs = <<>> THEN <<>>
               ELSE (IF Head(xs)[1] = "X" THEN <<Head(xs)[2]>> ELSE <<>>) \o Centres(Tail(xs))
PosOk(F, p) == LET q == Centres(F.xyz) IN
               /\ Len(p) = Len(q)
               /\ \A i \in 1..Len(q) : \A d \in 1..3 : Near(p[i][d], 1000 * q[i][d], 2)

HopBad(F, e) ==
    LET h == TLCEval([k \in Keys(F, e.ws) |-> HAt(F, e.ws, k)])
        K(t) == <<t[1], t[2], t[3], t[4], t[5]>>
        got == {K(e.hop[n]) : n \in 1..Len(e.hop)}
        full == got \cup {HConj(k) : k \in got}
    IN UNION {
        IF Cardinality(full) # 2 * Len(e.hop) THEN {"repeated_term"} ELSE {},
        IF \E n \in 1..Len(e.hop) : K(e.hop[n]) \notin DOMAIN h THEN {"foreign_term"} ELSE {},
        IF \E n \in 1..Len(e.hop) : K(e.hop[n]) \in DOMAIN h
                /\ h[K(e.hop[n])] # <<e.hop[n][6], e.hop[n][7]>> THEN {"hopping_energy"} ELSE {},
        IF \E k \in DOMAIN h : ~Diag(k) /\ ~Below(h[k], e.cut + 1) /\ k \notin full
          THEN {"missing_term"} ELSE {},
        IF \E k \in full : k \in DOMAIN h /\ Below(h[k], Max2(e.cut - 1, 0)) THEN {"term_below_cutoff"} ELSE {},
        IF \E i \in 1..Min2(Len(e.eng), F.nw) :
              LET k == <<0, 0, 0, i - 1, i - 1>>
                  v == IF k \in DOMAIN h THEN h[k] ELSE <<0, 0>>
              IN \/ ~Below(v, e.cut + 1) /\ e.eng[i] # v[1]
                 \/ Below(v, Max2(e.cut - 1, 0)) /\ e.eng[i] # 0
          THEN {"onsite_energy"} ELSE {}}
ConvBad(F, e) ==
    (IF LatOk(F, e.lat) THEN {} ELSE {"lattice"})
    \cup (IF PosOk(F, e.pos) /\ Len(e.eng) = Len(e.pos) THEN {} ELSE {"positions"})
    \cup HopBad(F, e)

InitSt(case) == case.cfg
ResOf(S, e) == IF S.unit \notin {"", "Ang", "ang", "Bohr", "bohr"} THEN "ValueError"
               ELSE IF e.ws /\ ~S.haswv THEN "FileNotFoundError" ELSE "ok"
Chk(S, e) ==
    LET res == ResOf(S, e)
        b == IF e.out # res
             THEN {IF e.out = "ok" THEN "error_not_raised" ELSE "unexpected_error"}
             ELSE IF res # "ok" THEN {} ELSE ConvBad(S, e)
    IN [st |-> S, bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
===============================================================================
