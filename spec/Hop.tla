--------------------------------- MODULE Hop ---------------------------------
(* Algebra of hopping containers.                                           *)
(*                                                                          *)
(* A set of hopping terms is modelled by its conjugate closure: a function  *)
(* from keys <<ra, rb, rc, i, j>> to Gaussian integers <<re, im>> with      *)
(*     f[Conj(k)] = conjugate of f[k]                                       *)
(* so that the model does not depend on which orientation of a pair an      *)
(* implementation chooses to store.                                         *)
EXTENDS Util

NoHop == [k \in {} |-> <<0, 0>>]
HKey(rn, i, j) == <<rn[1], rn[2], rn[3], i, j>>
HConj(k) == <<-k[1], -k[2], -k[3], k[5], k[4]>>
HRn(k) == <<k[1], k[2], k[3]>>
CConj(v) == <<v[1], -v[2]>>
CAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>

HPut(f, k, v) == (k :> v) @@ (HConj(k) :> CConj(v)) @@ f
HDel(f, k) == [x \in DOMAIN f \ {k, HConj(k)} |-> f[x]]
HRestrict(f, P(_)) == LET D == {x \in DOMAIN f : P(x)} IN [x \in D |-> f[x]]

(* Removing the orbitals in S and renumbering the rest *)
Renum(i, S) == i - Cardinality({s \in S : s < i})
HDropOrb(f, S) ==
    LET D == {k \in DOMAIN f : k[4] \notin S /\ k[5] \notin S}
        new(k) == <<k[1], k[2], k[3], Renum(k[4], S), Renum(k[5], S)>>
    IN [k \in {new(x) : x \in D} |-> f[CHOOSE x \in D : new(x) = k]]

HCount(f) == Cardinality(DOMAIN f) \div 2

(* number of hopping terms that end on orbital o *)
HDegree(f, o) == Cardinality({k \in DOMAIN f : k[4] = o})

HClosed(f) == \A k \in DOMAIN f : HConj(k) \in DOMAIN f
                                  /\ f[HConj(k)] = CConj(f[k])
HNoDiag(f) == \A k \in DOMAIN f : k # HConj(k)
HInRange(f, n) == \A k \in DOMAIN f : k[4] \in 0..(n - 1) /\ k[5] \in 0..(n - 1)

(* A recorded list of terms <<ra, rb, rc, i, j, re, im>> represents f iff   *)
(* it holds exactly one orientation of every conjugate pair of f.           *)
HListRepr(list, f) ==
    LET K(t) == <<t[1], t[2], t[3], t[4], t[5]>>
        ks == {K(list[n]) : n \in 1..Len(list)}
    IN /\ 2 * Len(list) = Cardinality(DOMAIN f)
       /\ Cardinality(ks \cup {HConj(k) : k \in ks}) = 2 * Len(list)
       /\ \A n \in 1..Len(list) : /\ K(list[n]) \in DOMAIN f
                                  /\ f[K(list[n])] = <<list[n][6], list[n][7]>>
=============================================================================
