----------------------------- MODULE Truncation -----------------------------
(***************************************************************************)
(* The truncation rule.  E is the ascending sequence of the energies of    *)
(* all computed states of a step (integers, energy 0 = lowest state);      *)
(* par has the fields                                                      *)
(*   keep, keepmin      requested numbers                                  *)
(*   ke                 energy window (in the same units; < 0: not used)   *)
(*   sg, sgmax          safeguard gap (0: off) and maximal extension       *)
(*   kind, list         keepall: "", "even", "odd", "list"                 *)
(* Energies that differ by at most 1 are not distinguishable.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

KeepAll(par, N) == \/ par.kind = "even" /\ N % 2 = 0
                   \/ par.kind = "odd" /\ N % 2 = 1
                   \/ par.kind = "list" /\ \E i \in 1..Len(par.list) : par.list[i] = N

\* number of elements of the ascending sequence E that are <= x
RECURSIVE Bisect(_, _, _, _)
Bisect(E, x, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2
                             IN IF E[m] <= x THEN Bisect(E, x, m, hi) ELSE Bisect(E, x, lo, m - 1)
CountLE(E, x) == Bisect(E, x, 0, Len(E))

\* requested number before any safeguard
Base(par, E) == IF par.ke < 0 THEN {par.keep}
                ELSE {MinOf(MaxOf(1 + c, par.keepmin), par.keep) : c \in CountLE(E, par.ke - 1)..CountLE(E, par.ke + 1)}

\* extension through clusters of nearly degenerate levels
RECURSIVE Extend(_, _, _, _)
Extend(par, E, k, extra) ==
  IF k >= Len(E) \/ extra >= par.sgmax THEN {k}
  ELSE LET gap == E[k + 1] - E[k]
       IN (IF gap <= par.sg + 1 THEN Extend(par, E, k + 1, extra + 1) ELSE {}) \cup
          (IF gap >= par.sg THEN {k} ELSE {})

\* the acceptable numbers of retained states
Kept(par, N, E) ==
  IF KeepAll(par, N) THEN {Len(E)}
  ELSE UNION {IF b >= Len(E) THEN {Len(E)}
              ELSE LET b1 == MaxOf(b, 1)
                       ks == IF par.sg > 0 THEN Extend(par, E, b1, 0) ELSE {b1}
                   IN UNION {k..CountLE(E, E[k] + 1) : k \in ks} : b \in Base(par, E)}
=============================================================================
