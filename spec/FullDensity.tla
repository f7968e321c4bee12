----------------------------- MODULE FullDensity -----------------------------
(***************************************************************************)
(* The complete basis of a truncated renormalisation-group run.            *)
(*                                                                         *)
(* The chain consists of blocks that are decoupled from each other and     *)
(* from the seed cluster: single sites and dimers (two sites joined by a   *)
(* hopping).  All energies are integers, so it is known exactly which      *)
(* states every step retains: those within a window above the lowest one,   *)
(* and the whole level of degenerate states above that window.             *)
(*                                                                         *)
(*   ret  - retained states, <<energy, seed level>> -> number of states;   *)
(*          the first site of an unfinished dimer (open) has zero energy   *)
(*          and is not contained in it                                     *)
(*   dis  - for each step, the states discarded there, counted as states   *)
(*          of the complete chain (all the sites added later included)     *)
(*                                                                         *)
(* At the last step every state counts as discarded.  The full density     *)
(* matrix gives each discarded state its Boltzmann weight; the reader      *)
(* supplies the factors exp(-E/T).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, FiniteSetsExt

CONSTANTS Seed,    \* sequence of [e |-> energy, n |-> number of states]; the position is the level
          Steps,   \* sequence of [kind |-> "site"/"open"/"close", modes |-> one-particle energies of the finished
                   \*              block, off |-> energy of the empty block (on-site terms vanish at half filling),
                   \*              win |-> window of the truncation]; energies are in units of 1/2
          M        \* one-particle modes per site

VARIABLES n, ret, open, dis
vars == <<n, ret, open, dis>>

Get(t, key) == IF key \in DOMAIN t THEN t[key] ELSE 0
Sum(t) == FoldSet(LAMBDA key, acc : acc + t[key], 0, DOMAIN t)
N == Len(Steps)

Add(t, e) == LET keys == DOMAIN t \cup {<<key[1] + e, key[2]>> : key \in DOMAIN t}
             IN [key \in keys |-> Get(t, key) + Get(t, <<key[1] - e, key[2]>>)]
Shift(t, e) == [key \in {<<x[1] + e, x[2]>> : x \in DOMAIN t} |-> t[<<key[1] - e, key[2]>>]]
RECURSIVE AddAll(_, _)
AddAll(t, es) == IF es = <<>> THEN t ELSE AddAll(Add(t, Head(es)), Tail(es))

Init == /\ n = 0 /\ open = FALSE /\ dis = <<>>
        /\ ret = [key \in {<<Seed[j].e, j>> : j \in 1..Len(Seed)} |-> Seed[key[2]].n]

Emin(t) == Min({key[1] : key \in DOMAIN t})
\* everything within the window above the lowest state, and the next energy level (completely)
Level(t, w) == LET above == {key[1] - Emin(t) : key \in DOMAIN t} \ 0..w
               IN IF above = {} THEN w ELSE Min(above)
Below(t, w) == {key \in DOMAIN t : key[1] - Emin(t) <= Level(t, w)}
Part(t, S) == [key \in S |-> t[key]]

Step == /\ n < N
        /\ LET s    == Steps[n + 1]
               t    == Shift(AddAll(ret, s.modes), s.off)
               o    == s.kind = "open"
               kept == IF n + 1 = N THEN {} ELSE Below(t, s.win)
               rest == 2^(M * (N - n - 1)) * (IF o THEN 2^M ELSE 1)
           IN /\ s.kind = "open" => s.modes = <<>>
              /\ s.kind = "close" <=> open
              /\ ret' = Part(t, kept)
              /\ dis' = Append(dis, [key \in DOMAIN t \ kept |-> t[key] * rest])
              /\ open' = o
              /\ n' = n + 1
Spec == Init /\ [][Step]_vars

Done == n = N
SeedDim == FoldSet(LAMBDA j, acc : acc + Seed[j].n, 0, 1..Len(Seed))
Discarded == FoldSet(LAMBDA j, acc : acc + Sum(dis[j]), 0, 1..Len(dis))

\* every state of the complete chain is counted exactly once, as retained or as discarded at one step
Complete == Discarded + Sum(ret) * 2^(M * (N - n)) * (IF open THEN 2^M ELSE 1) = SeedDim * 2^(M * N)
AllDone  == Done => ret = <<>> \/ DOMAIN ret = {}
\* no discarded state lies below a retained one of the same step
NoGap    == n > 0 => \A a \in DOMAIN ret, b \in DOMAIN dis[n] : a[1] < b[1]

Emit == Done => JsonSerialize("fdm.json", [j \in 1..N |-> {<<key[1], key[2], dis[j][key]>> : key \in DOMAIN dis[j]}])
=============================================================================
