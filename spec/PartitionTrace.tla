---------------------------- MODULE PartitionTrace ----------------------------
(* Histories of parallel programs: what every process sees, and the serial     *)
(* result.                                                                     *)
EXTENDS Partition, TraceCore

ONE == 1000000
Tol(v) == 3 + Abs(v) \div 100000000
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], Tol(b[i]))
Bad(ok, name) == IF ok THEN {} ELSE {name}

SplitBad(e) ==
    LET val(d, f(_)) == [r \in 1..Len(d) |-> [i \in 1..Len(d[r]) |-> f(d[r][i])]]
        back(v) == IF (v - 1) % 7 = 0 THEN (v - 1) \div 7 ELSE -1
    IN Bad(IsDist(e.rng, e.n, e.g), "split_range")
       \cup (IF e.n < e.g THEN {}
             ELSE Bad(IsDist(val(e.a, back), e.n, e.g), "split_list_range")
                  \cup Bad(val(e.b, back) = Remainder(e.n, e.g), "split_list_remainder"))

DistBad(S, e) ==
    LET p == Len(e.par)
        back(q) == [i \in 1..Len(q) |-> IF q[i] % 10 = 3 THEN q[i] \div 10 ELSE -1]
        rng == [r \in 1..p |-> e.par[r].rng]
        ends == \A r \in 1..p : LET q == e.par[r].rng b == e.par[r].bound IN
                   /\ b[2] - b[1] + 1 = Len(q)
                   /\ q # <<>> => b[1] = q[1] /\ b[2] = q[Len(q)]
    IN Bad(IsDist(rng, e.n, p), "dist_range") \cup Bad(ends, "dist_bound")
       \cup Bad(e.ser.rng = Items(e.n) /\ e.ser.bound = <<0, e.n - 1>>, "serial_dist")
       \cup (IF e.n < p THEN {}
             ELSE Bad(\A a \in {1, 2} : IsDist([r \in 1..p |-> back(e.par[r].lst[a])], e.n, p),
                      "dist_list")
                  \cup Bad([r \in 1..p |-> back(e.par[r].lst[3])] = Remainder(e.n, p),
                           "dist_list_remainder"))

(* collectives on arrays of whole numbers                                      *)
Total(e, i) == LET F(r) == e.flat[r][i] IN SumTo(F, Len(e.flat))
CollWant(e) ==
    LET p == Len(e.par)
        L == Len(e.flat[1])
    IN CASE e.f \in {"reduce", "all_reduce"} -> [i \in 1..L |-> ONE * Total(e, i)]
         [] e.f \in {"average", "all_average"} ->
              [i \in 1..L |-> (2 * ONE * Total(e, i) + p) \div (2 * p)]
         [] OTHER -> [i \in 1..L |-> ONE * e.flat[1][i]]
CollBad(S, e) ==
    LET p == Len(e.par)
        want == CollWant(e)
        own(r) == [i \in 1..Len(e.flat[r]) |-> ONE * e.flat[r][i]]
        ok(x) == x.out = "ok" /\ ~x.none /\ NearSeq(x.res, want) /\ x.shape = e.shape
    IN IF e.order = "S" /\ e.f # "bcast"
       THEN Bad(\A r \in 1..p : e.par[r].out = "ValueError", "non_contiguous_array")
       ELSE Bad(ok(e.par[1]), "collective_master")
            \cup Bad(\A r \in 2..p : IF e.f \in {"reduce", "average"}
                                     THEN e.par[r].out = "ok" /\ e.par[r].none
                                     ELSE ok(e.par[r]), "collective_other")
            \cup Bad(\A r \in 1..p : e.par[r].kept, "input_modified")
            \cup Bad(e.ser.out = "ok" /\ NearSeq(e.ser.res, own(1)), "collective_serial")

(* calculations                                                                *)
PerRank == {"psi", "hay"}
CalcBad(S, e) ==
    LET p == Len(e.par)
        sp == IF S.kind = "tbpm" /\ e.op # "ns" THEN e.sampled ELSE FALSE
        ns == IF S.kind # "tbpm" THEN 0 ELSE IF e.op = "ns" THEN e.n
              ELSE IF sp THEN RoundUp(S.ns, p) ELSE S.ns
    IN IF e.op \in PerRank /\ p > 1
       THEN Bad(\A r \in 1..p : e.par[r].out = "RuntimeError", "serial_only_method")
       ELSE IF e.ser.out # "ok" THEN Bad(\A r \in 1..p : e.par[r].out = e.ser.out, "errors_differ")
       ELSE UNION {
              Bad(\A r \in 1..p : e.par[r].out = "ok", "parallel_error"),
              Bad(e.ser.ns = ns /\ \A r \in 1..p : e.par[r].ns = ns, "number_of_samples"),
              IF \E r \in 1..p : e.par[r].out # "ok" THEN {}
              ELSE IF e.op = "states" /\ ~e.red
              THEN Bad(\A k \in 1..Len(e.ks) :
                         /\ \E r \in 1..p : e.par[r].val[k] # <<>>
                         /\ \A r \in 1..p : \/ e.par[r].val[k] = <<>>
                                            \/ NearSeq(e.par[r].val[k], e.ser.val[k]),
                       "own_states")
              ELSE Bad(NearSeq(e.par[1].val, e.ser.val), "master_result")
                   \cup Bad(\A r \in 2..p : NearSeq(e.par[r].val, e.ser.val), "other_result")}

InitSt(case) == [p |-> case.cfg.p, kind |-> case.cfg.kind,
                 ns |-> IF case.cfg.kind = "tbpm" THEN case.cfg.ns ELSE 0]
NextNs(S, e) == IF S.kind # "tbpm" \/ e.op = "run" THEN S.ns
                ELSE IF e.op = "ns" THEN e.n
                ELSE IF e.sampled THEN RoundUp(S.ns, S.p) ELSE S.ns
Chk(S, e) ==
    LET b == CASE e.op = "run" -> Bad(e.out = "ok", "parallel_run_" \o e.out)
               [] e.op = "split" -> SplitBad(e)
               [] e.op = "dist" -> DistBad(S, e)
               [] e.op = "coll" -> CollBad(S, e)
               [] OTHER -> CalcBad(S, e)
    IN [st |-> [S EXCEPT !.ns = NextNs(S, e)], bad |-> b]
TInit == TraceInit(InitSt)
TNext == TraceNext(Chk)
===============================================================================
