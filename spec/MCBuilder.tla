------------------------------ MODULE MCBuilder ------------------------------
(* Exhaustive exploration of Builder from a small prepared world: every      *)
(* sequence of at most MaxLevel calls drawn from a finite alphabet, legal    *)
(* and illegal arguments included.                                           *)
EXTENDS Builder

CONSTANTS Alphabet, MaxLevel
VARIABLE w

E3 == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>
RECURSIVE Run(_, _)
Run(v, ops) == IF ops = <<>> THEN v ELSE Run(Step(v, Head(ops)).w, Tail(ops))
Orb(p, x) == [op |-> "add_orbital", p |-> p, pos |-> <<x, 0, 0>>, e |-> x, lab |-> "X"]
HopO(p, rn, i, j, v) == [op |-> "add_hopping", p |-> p, rn |-> rn, i |-> i,
                         j |-> j, v |-> v]
Pc1 == <<[op |-> "new_pc", lat |-> E3, org |-> Zero3], Orb(1, 0), Orb(1, 24),
         HopO(1, <<0, 0, 0>>, 0, 1, <<1, 1>>), HopO(1, <<1, 0>>, 1, 0, <<2, 0>>)>>
Sc1 == Pc1 \o <<[op |-> "new_sc", p |-> 1, dim |-> <<3, 1, 1>>,
                 pbc |-> <<TRUE, FALSE>>, vac |-> <<>>, pm |-> 0]>>
Sp1 == Sc1 \o <<[op |-> "new_sp", sc |-> <<1>>, ih |-> <<>>, alien |-> FALSE]>>

PcOps ==
    {HopO(1, rn, i, j, v) : rn \in {<<0, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>},
                            i \in 0..1, j \in 0..1, v \in {<<1, -1>>, <<3, 0>>}}
    \cup {[op |-> "remove_hopping", p |-> 1, rn |-> rn, i |-> i, j |-> 1 - i]
          : rn \in {<<0, 0, 0>>, <<1, 0, 0>>}, i \in 0..1}
    \cup {[op |-> "get_hopping", p |-> 1, rn |-> <<-1, 0, 0>>, i |-> 0, j |-> 1],
          HopO(1, <<0>>, 0, 1, <<1, 0>>), HopO(1, <<0, 0>>, 0, 2, <<1, 0>>),
          [op |-> "remove_orbitals", p |-> 1, ix |-> <<0>>],
          [op |-> "remove_orbitals", p |-> 1, ix |-> <<0, 7>>],
          [op |-> "set_orbital", p |-> 1, i |-> 0, pos |-> <<>>, e |-> 5, lab |-> ""],
          [op |-> "apply_pbc", p |-> 1, pbc |-> <<FALSE, TRUE, TRUE>>],
          [op |-> "trim_pc", p |-> 1], Orb(1, 12),
          [op |-> "add_hopping_dict", p |-> 1,
           terms |-> <<[rn |-> <<1, 0>>, i |-> 0, j |-> 0, v |-> <<1, 2>>],
                       [rn |-> <<0, 0>>, i |-> 1, j |-> 0, v |-> <<4, 0>>]>>],
          [op |-> "add_hopping_dict", p |-> 1,
           terms |-> <<[rn |-> <<1, 0>>, i |-> 0, j |-> 1, v |-> <<1, 2>>],
                       [rn |-> <<0, 0>>, i |-> 1, j |-> 1, v |-> <<4, 0>>]>>]}
LockOps ==
    {[op |-> "unlock", kind |-> k, n |-> 1] : k \in {"pc", "sc"}}
    \cup {[op |-> "update", kind |-> k, n |-> 1] : k \in {"pc", "sc"}}
    \cup {HopO(1, <<0, 0>>, 0, 1, <<5, 0>>),
          [op |-> "set_orbital", p |-> 1, i |-> 0, pos |-> <<>>, e |-> 5, lab |-> ""],
          [op |-> "remove_orbitals", p |-> 1, ix |-> <<1>>], Orb(1, 12),
          [op |-> "read_sc", s |-> 1],
          [op |-> "add_vac", s |-> 1, vac |-> <<<<0, 0, 0, 1>>>>],
          [op |-> "add_vac", s |-> 1, vac |-> <<<<1, 0, 0, 0>>, <<3, 0, 0, 0>>>>],
          [op |-> "set_vac", s |-> 1, vac |-> <<>>],
          [op |-> "sc_add_hop", s |-> 1, rn |-> <<0, 0>>, i |-> 0, j |-> 2, v |-> <<7, 1>>],
          [op |-> "set_posmod", s |-> 1, pm |-> 1]}
SampleOps ==
    LockOps \cup
    {[op |-> o, q |-> 1, force |-> f] : o \in {"init_eng", "init_hop"}, f \in BOOLEAN}
    \cup {[op |-> "rescale", q |-> 1, f |-> 2], [op |-> "reset_sp", q |-> 1],
          [op |-> "read_sp", q |-> 1], [op |-> "update", kind |-> "sp", n |-> 1]}

Ops == CASE Alphabet = "pc" -> PcOps [] Alphabet = "lock" -> LockOps
         [] Alphabet = "sample" -> SampleOps
Start == CASE Alphabet = "pc" -> Pc1 [] Alphabet = "lock" -> Sc1
           [] Alphabet = "sample" -> Sp1

(* supercell facts that hold in every reachable world *)
IdsBijective(v, s) ==
    LET ids == ScIds(v, s)
        n == NPc(v, s)
    IN /\ Len(ids) = NumOrbSC(v.sc[s], n)
       /\ \A i \in 1..Len(ids) : ScId(ids[i], v.sc[s], n) = i - 1
       /\ Elems(ids) \cap v.sc[s].vac = {}
ModInRange(v, s) == \A k \in DOMAIN v.sc[s].mod : k[4] < Len(ScIds(v, s))
                                                  /\ k[5] < Len(ScIds(v, s))
ScGood(v, s) == SyncErr(v, s) = {} =>
    /\ IdsBijective(v, s)
    /\ ModInRange(v, s) =>
         LET T == ScH(v, s) IN
         /\ \A t \in T : TConj(t) \in T /\ t # TConj(t)
         \* one value per pair and image
         /\ \A t, u \in T : (t[1] = u[1] /\ t[2] = u[2] /\ t[5] = u[5]
                             /\ t[6] = u[6] /\ t[7] = u[7]) => t = u
(* a sample whose sources did not change holds exactly the expanded model   *)
Inv == /\ WorldOk(w)
       /\ \A s \in 1..Len(w.sc) : ScGood(w, s)

ModSafe(v) == \A s \in 1..Len(v.sc) : SyncErr(v, s) = {} => ModInRange(v, s)
Init == w = Run(EmptyWorld, Start)
Next == /\ TLCGet("level") <= MaxLevel
        /\ \E o \in Ops :
             LET r == Step(w, o) IN
             /\ Assert(StepOk(w, o), <<"StepOk", o>>)
             /\ ModSafe(r.w)
             /\ \E S \in SUBSET r.may :
                  w' = [r.w EXCEPT !.pc = [p \in 1..Len(@) |->
                          IF p \in S THEN [@[p] EXCEPT !.lk = TRUE] ELSE @[p]]]
Spec == Init /\ [][Next]_w
(* an update reaches every subscriber: afterwards the arrays that a sample   *)
(* has initialised equal the model                                           *)
Fresh(v, q) == /\ v.sp[q].hasE => v.sp[q].eng = SpEng(v, q)
               /\ v.sp[q].hasH => v.sp[q].hop = SpHop(v, q)
UpdateFresh == \A o \in Ops : (o.op = "update" /\ Step(w, o).res = OK) =>
                  \A q \in 1..Len(w.sp) : Fresh(Step(w, o).w, q)
=============================================================================
