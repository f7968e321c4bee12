------------------------------ MODULE FreeChain ------------------------------
(***************************************************************************)
(* Exact content of a quadratic Hamiltonian whose one-particle energies    *)
(* are integers: the many-body states are the occupations of the           *)
(* one-particle modes.  The modes are added one after the other (action    *)
(* AddMode); `tab' maps <<energy, charges>> to the number of many-body     *)
(* states with that energy and those charges.                              *)
(*                                                                         *)
(* From the complete table the specification derives what an untruncated   *)
(* renormalisation-group run has to report, whatever symmetry it uses:     *)
(*   Multiplets - number of irreducible multiplets per energy and label    *)
(*                (su2 charges are 2m; a multiplet is labelled by 2j)      *)
(*   Thermo     - traces of observables, resolved by energy                *)
(* Several chains (Problems) are explored in one run; `p' selects one.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, Functions

CONSTANT Problems  \* sequence of records
  \* modes: sequence of [e |-> integer energy, c |-> charges if occupied, v |-> charges if empty]
  \*        (charges are counted from half filling: the first mode of a site carries the site's offset)
  \* types: tuple over {"u1", "z2", "z3", "su2"}
  \* seed:  multiplets of the (decoupled) seed cluster: sequence of [e |-> energy, c |-> charges]

VARIABLES p, k, tab
vars == <<p, k, tab>>

Modes  == Problems[p].modes
Types  == Problems[p].types
Seed   == Problems[p].seed
R == 1..Len(Types)
Su2 == {i \in R : Types[i] = "su2"}

Comb(a, b) == [i \in R |-> CASE Types[i] = "z2" -> (a[i] + b[i]) % 2
                              [] Types[i] = "z3" -> (a[i] + b[i]) % 3
                              [] OTHER -> a[i] + b[i]]

Get(t, key) == IF key \in DOMAIN t THEN t[key] ELSE 0

\* a many-body state with the mode m empty / occupied
Empty(key, m) == <<key[1], Comb(key[2], m.v)>>
Full(key, m)  == <<key[1] + m.e, Comb(key[2], m.c)>>

\* one-particle mode m may be empty or occupied
Occupy(t, m) ==
  LET keys == {Empty(key, m) : key \in DOMAIN t} \cup {Full(key, m) : key \in DOMAIN t}
      \* the inverses of Empty and Full (charges form a group, so there is at most one origin)
      inv(nk, e, d) == <<nk[1] - e, [i \in R |-> CASE Types[i] = "z2" -> (nk[2][i] + d[i]) % 2
                                                  [] Types[i] = "z3" -> (nk[2][i] + 3 - d[i]) % 3
                                                  [] OTHER -> nk[2][i] - d[i]]>>
  IN [nk \in keys |-> Get(t, inv(nk, 0, m.v)) + Get(t, inv(nk, m.e, m.c))]

\* all members of the seed multiplet m (su2 charges are given by their highest weight)
Members(m) == LET rng(i) == {x \in -m.c[i]..m.c[i] : (x - m.c[i]) % 2 = 0}
                  su2    == {f \in [Su2 -> UNION {rng(i) : i \in Su2}] : \A i \in Su2 : f[i] \in rng(i)}
              IN {[i \in R |-> IF i \in Su2 THEN f[i] ELSE m.c[i]] : f \in su2}
SeedCount(c, e) == Cardinality({j \in 1..Len(Seed) : Seed[j].e = e /\ c \in Members(Seed[j])})
SeedTab == LET keys == UNION {{<<Seed[j].e, c>> : c \in Members(Seed[j])} : j \in 1..Len(Seed)}
           IN [key \in keys |-> SeedCount(key[2], key[1])]

Init == p \in 1..Len(Problems) /\ k = 0 /\ tab = SeedTab
AddMode == k < Len(Modes) /\ k' = k + 1 /\ tab' = Occupy(tab, Modes[k + 1]) /\ UNCHANGED p
Next == AddMode
Spec == Init /\ [][Next]_vars

Total(t) == FoldSet(LAMBDA key, acc : acc + t[key], 0, DOMAIN t)
Done == k = Len(Modes)

\* highest-weight counting: multiplets (E, c) = sum over subsets D of Su2 of (-1)^|D| n(E, c + 2*1_D)
NMult(t, key) ==
  FoldSet(LAMBDA D, acc : acc + (IF Cardinality(D) % 2 = 0 THEN 1 ELSE -1) *
             Get(t, <<key[1], [i \in R |-> IF i \in D THEN key[2][i] + 2 ELSE key[2][i]]>>),
          0, SUBSET Su2)
HWKeys(t) == {key \in DOMAIN t : \A i \in Su2 : key[2][i] >= 0}
Multiplets(t) == {[e |-> key[1], c |-> key[2], n |-> NMult(t, key)] : key \in {x \in HWKeys(t) : NMult(t, x) # 0}}
MultDim(key) == FoldSet(LAMBDA i, acc : acc * (key[2][i] + 1), 1, Su2)

Emin(t) == Min({key[1] : key \in DOMAIN t})
Emax(t) == Max({key[1] : key \in DOMAIN t})

(***************************************************************************)
(* Canonical averages.  thermo.marks: numbers of modes after which a row of *)
(* averages is due (one for each complete site); thermo.obs: observables,   *)
(* integer functions of the charges of a state, (lin . charges)^pow or a    *)
(* table over the values of one charge.  The specification delivers         *)
(* Tr[delta(E - H) O] for each observable: the Boltzmann factors (which are *)
(* powers of a real number) are supplied by the reader, at any temperature. *)
(* filter: only the states whose charge `i' is r modulo m are measured.     *)
(***************************************************************************)
Th == Problems[p].thermo
Passes(c) == IF Th.filter.m = 0 THEN TRUE ELSE c[Th.filter.i] % Th.filter.m = Th.filter.r
Meas(t) == {key \in DOMAIN t : Passes(key[2])}
Value(o, c) == IF o.idx > 0 THEN o.val[c[o.idx]]
               ELSE LET v == FoldSet(LAMBDA i, acc : acc + o.lin[i] * c[i], 0, R)
                    IN IF o.pow = 0 THEN 1 ELSE IF o.pow = 1 THEN v ELSE v * v
\* the measured states of each energy (one partition serves all observables)
Levels(t) == LET ks == Meas(t) IN [e \in {key[1] : key \in ks} |-> {x \in ks : x[1] = e}]
ByEnergy(t, lv, o) == {<<e, FoldSet(LAMBDA key, acc : acc + t[key] * Value(o, key[2]), 0, lv[e])>> : e \in DOMAIN lv}

----------------------------------------------------------------------------
(* invariants of the specification itself *)
SeedDim == Total(SeedTab)
CountOK == Total(tab) = SeedDim * 2^k
SymOK   == Done => \A key \in DOMAIN tab : \A i \in Su2 :
              Get(tab, <<key[1], [key[2] EXCEPT ![i] = -@]>>) = tab[key]
MultOK  == Done => \A key \in HWKeys(tab) : NMult(tab, key) >= 0
DimOK   == Done => FoldSet(LAMBDA key, acc : acc + NMult(tab, key) * MultDim(key), 0, HWKeys(tab)) = SeedDim * 2^Len(Modes)

\* the result is written when the last mode has been added
Thermo == LET lv == Levels(tab) IN [zero |-> Emin(tab), obs |-> [j \in 1..Len(Th.obs) |-> ByEnergy(tab, lv, Th.obs[j])]]
File(n) == n \o ToString(p) \o ".json"
Emit == Done => JsonSerialize(File("out"), [mult |-> Multiplets(tab), gs |-> Emin(tab), dims |-> Total(tab)])
EmitThermo == (k \in Th.marks) => JsonSerialize("thermo" \o ToString(p) \o "_" \o ToString(k) \o ".json", Thermo)
=============================================================================
