------------------------------- MODULE Charges -------------------------------
(***************************************************************************)
(* Quantum numbers as tuples; Types[i] is the kind of the i-th charge:     *)
(* "u1" (additive), "z2", "z3" (additive modulo), "su2" (2j).              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
AddOne(ty, a, b) == CASE ty = "z2" -> (a + b) % 2
                      [] ty = "z3" -> (a + b) % 3
                      [] OTHER -> a + b
Add(types, a, b) == [i \in 1..Len(types) |-> AddOne(types[i], a[i], b[i])]

\* one factor of the Clebsch-Gordan series
CoupleOne(ty, a, b) == IF ty = "su2" THEN {x \in Abs(a - b)..(a + b) : (x - a - b) % 2 = 0}
                                     ELSE {AddOne(ty, a, b)}
\* all labels contained in the product a x b (each of them once)
Couple(types, a, b) ==
  LET n   == Len(types)
      opt == [i \in 1..n |-> CoupleOne(types[i], a[i], b[i])]
      RECURSIVE F(_)
      F(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in F(k - 1), x \in opt[k]}
  IN F(n)

\* all labels a such that I is contained in a x b
SplitOne(ty, I, b) == CASE ty = "su2" -> CoupleOne(ty, I, b)
                        [] ty = "z2"  -> {(I + b) % 2}
                        [] ty = "z3"  -> {(I + 3 - b) % 3}
                        [] OTHER      -> {I - b}
Split(types, I, b) ==
  LET n   == Len(types)
      opt == [i \in 1..n |-> SplitOne(types[i], I[i], b[i])]
      RECURSIVE F(_)
      F(k) == IF k = 0 THEN {<<>>} ELSE {Append(s, x) : s \in F(k - 1), x \in opt[k]}
  IN F(n)

\* number of states of a multiplet
Mult(types, a) == FoldSet(LAMBDA i, acc : acc * (a[i] + 1), 1, {i \in 1..Len(types) : types[i] = "su2"})

Get(t, key) == IF key \in DOMAIN t THEN t[key] ELSE 0

\* occupations of the one-particle modes (sequence of charge tuples): charges -> number of states
RECURSIVE Fock(_, _, _)
Fock(types, modes, vac) ==
  IF modes = <<>> THEN (vac :> 1)
  ELSE LET t == Fock(types, Tail(modes), vac)
           m == Head(modes)
           keys == DOMAIN t \cup {Add(types, key, m) : key \in DOMAIN t}
       IN [key \in keys |-> Get(t, key) + FoldSet(LAMBDA k, acc : acc + t[k], 0, {k \in DOMAIN t : Add(types, k, m) = key})]

\* multiplets contained in a table of states (highest-weight counting)
Multiplets(types, t) ==
  LET su == {i \in 1..Len(types) : types[i] = "su2"}
      num(key) == FoldSet(LAMBDA D, acc : acc + (IF Cardinality(D) % 2 = 0 THEN 1 ELSE -1) *
                     Get(t, [i \in 1..Len(types) |-> IF i \in D THEN key[i] + 2 ELSE key[i]]), 0, SUBSET su)
      hw == {key \in DOMAIN t : (\A i \in su : key[i] >= 0) /\ num(key) # 0}
  IN [key \in hw |-> num(key)]
=============================================================================
