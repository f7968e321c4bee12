----------------------------- MODULE PartialDiag -----------------------------
(***************************************************************************)
(* One step of the iteration with partial diagonalisation: in attempt a    *)
(* only the lowest ceil(ratio*dim) levels of each subspace are computed    *)
(* (ratio = num/den), the truncation rule is applied to what is there, and *)
(* the step is repeated with a larger ratio as long as levels that were    *)
(* left out could belong to the retained set.                              *)
(*                                                                         *)
(* The levels of a step come from a run with complete diagonalisation      *)
(* (es: levels of each subspace; lev: all of them in ascending order as    *)
(* <<energy, subspace, index>>); the recorded attempts of the run with     *)
(* partial diagonalisation must be a behaviour of this specification.      *)
(***************************************************************************)
EXTENDS Truncation, FiniteSetsExt, SequencesExt, TLC, Json

Steps == JsonDeserialize("steps.json")
VARIABLES k, a, num, why
vars == <<k, a, num, why>>

S == Steps[k]
J == 1..Len(S.subs)
Dim(j) == Len(S.subs[j].es)
CeilDiv(x, y) == (x + y - 1) \div y
Comp(nm, j) == MinOf(MaxOf(CeilDiv(nm * Dim(j), S.den), 1), Dim(j))
\* levels available in an attempt (energies are measured from the lowest computed level, which is the ground state)
Energies(nm) == LET c == [j \in J |-> Comp(nm, j)]
                    sel == SelectSeq(S.lev, LAMBDA x : x[3] <= c[x[2]])
                IN [i \in 1..Len(sel) |-> sel[i][1]]
Full == [i \in 1..Len(S.lev) |-> S.lev[i][1]]

\* retained number of subspace j for a cut at energy x (levels within 1 of the cut may be on either side)
Lo(j, x, nm) == MinOf(CountLE(S.subs[j].es, x - 1), Comp(nm, j))
Hi(j, x, nm) == MinOf(CountLE(S.subs[j].es, x + 1), Comp(nm, j))
LastAll == S.par.lastall /\ S.last

\* is `got' (subspace -> number) a retained set allowed by the rule when the ratio is nm/den?
Matches(got, nm) ==
  LET E == Energies(nm)
      tot == FoldSet(LAMBDA j, acc : acc + got[j], 0, J)
  IN IF LastAll THEN \A j \in J : got[j] = Comp(nm, j)
     ELSE /\ tot \in Kept(S.par, S.n, E)
          /\ \A j \in J : got[j] \in Lo(j, E[tot], nm)..Hi(j, E[tot], nm)

\* some subspace retains everything that was computed although there is more: the result is not final
Unsettled(got, nm) == \E j \in J : got[j] = Comp(nm, j) /\ Comp(nm, j) < Dim(j)

NextNum(nm) == MinOf((nm * S.fnum) \div S.fden, S.den)
Start == IF LastAll THEN S.den ELSE S.num

Init == k \in 1..Len(Steps) /\ a = 1 /\ num = Start /\ why = {}
Att == S.attempts[a]
RatioOff == Att.num - num \notin -1..1     \* announced with six digits
\* every attempt: ratio announced, number of retained states
Attempt ==
  /\ why = {} /\ a < Len(S.attempts)
  /\ why' = (IF RatioOff THEN {"ratio of the attempt"} ELSE {}) \cup
            (IF ~(Att.total \in Kept(S.par, S.n, Energies(num))) THEN {"retained states of an unfinished attempt"} ELSE {}) \cup
            (IF ~S.restart \/ num = S.den THEN {"repeated although nothing is left to compute"} ELSE {})
  /\ a' = a + 1 /\ num' = NextNum(num) /\ UNCHANGED k
Finish ==
  /\ why = {} /\ a = Len(S.attempts)
  /\ LET got == [j \in J |-> S.subs[j].kept]
     IN why' = (IF RatioOff THEN {"ratio of the attempt"} ELSE {}) \cup
               (IF \E j \in J : S.subs[j].comp # Comp(num, j) THEN {"number of computed states"} ELSE {}) \cup
               (IF ~Matches(got, num) THEN {"retained set"} ELSE {}) \cup
               (IF S.restart /\ Unsettled(got, num) THEN {"accepted although states may be missing"} ELSE {}) \cup
               (IF S.restart /\ ~Matches(got, S.den) THEN {"retained set differs from complete diagonalisation"} ELSE {})
  /\ a' = a + 1 /\ UNCHANGED <<k, num>>
Next == Attempt \/ Finish
Spec == Init /\ [][Next]_vars

Finished == why # {} \/ a > Len(S.attempts)
Emit == Finished => JsonSerialize("verdict" \o ToString(k) \o ".json", [step |-> k, attempts |-> a - 1, why |-> SetToSeq(why)])
\* a settled attempt computes the same retained set as the complete diagonalisation (checked on all possible cuts)
SettledIsRight ==
  (S.restart /\ ~LastAll /\ a <= Len(S.attempts)) =>
     \A tot \in Kept(S.par, S.n, Energies(num)) :
        LET x == Energies(num)[tot]
        IN (\A j \in J : Comp(num, j) = Dim(j) \/ Hi(j, x, num) < Comp(num, j)) => tot \in Kept(S.par, S.n, Full)
=============================================================================
