------------------------------- MODULE NRGRun -------------------------------
(***************************************************************************)
(* A run of the renormalisation-group iteration, step by step.  The state  *)
(* is the table `kept' (quantum numbers -> number of retained multiplets). *)
(* Adding a site turns it into the table of new subspace dimensions by     *)
(* the Clebsch-Gordan series; the truncation rule then fixes how many      *)
(* levels stay.  Recorded runs (file traces.json) are accepted step by     *)
(* step; a step that is not a step of this specification is rejected with  *)
(* the clause it breaks.                                                   *)
(***************************************************************************)
EXTENDS Charges, Truncation, Json, SequencesExt

Runs == JsonDeserialize("traces.json")

VARIABLES r, n, kept, why
vars == <<r, n, kept, why>>

Run == Runs[r]
Site(i) == Multiplets(Run.types, Fock(Run.types, Run.sites[i].modes, Run.sites[i].vac))
\* with interleaved (substep) addition the site kinds alternate
SiteOf(step) == Site((step % Len(Run.sites)) + 1)

SumOver(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)

\* dimensions after adding a site
Dims(k, site) ==
  LET alive == {a \in DOMAIN k : k[a] > 0}
      new   == UNION {Couple(Run.types, a, s) : a \in alive, s \in DOMAIN site}
  IN [I \in new |-> SumOver(DOMAIN site, LAMBDA s : site[s] * SumOver(Split(Run.types, I, s) \cap alive, LAMBDA a : k[a]))]

States(t) == SumOver(DOMAIN t, LAMBDA I : t[I] * Mult(Run.types, I))

\* a recorded step: subs = sequence of [c, dim, comp, kept, es], E = all levels in ascending order
Step(i) == Run.steps[i]
Labels(s) == {s.subs[j].c : j \in 1..Len(s.subs)}

StructureOK(s, d) == Cardinality(Labels(s)) = Len(s.subs) /\ Labels(s) = DOMAIN d
DimsOK(s, d) == \A j \in 1..Len(s.subs) : s.subs[j].dim = d[s.subs[j].c]
ComputedOK(s) == \A j \in 1..Len(s.subs) : s.subs[j].comp \in 1..s.subs[j].dim /\ Len(s.subs[j].es) = s.subs[j].comp
Total(s) == FoldSet(LAMBDA j, acc : acc + s.subs[j].kept, 0, 1..Len(s.subs))
LastKeepsAll == Run.par.lastall /\ n = Len(Run.steps) - 1
OrderOK(s) ==
  LET hi == {s.subs[j].es[s.subs[j].kept] : j \in {x \in 1..Len(s.subs) : s.subs[x].kept > 0}}
      lo == {s.subs[j].es[s.subs[j].kept + 1] : j \in {x \in 1..Len(s.subs) : s.subs[x].kept < s.subs[x].comp}}
  IN /\ \A j \in 1..Len(s.subs) : s.subs[j].kept \in 0..s.subs[j].comp
     /\ (hi = {} \/ lo = {} \/ Max(hi) <= Min(lo) + 1)
     /\ hi # {}
\* near-degenerate states are not split (unless the allowed extension is used up)
ParAt(s) == [Run.par EXCEPT !.ke = s.ke, !.sg = s.sg]
CountOK(s) == IF LastKeepsAll THEN Total(s) = Len(s.E)
              ELSE Total(s) \in Kept(ParAt(s), Run.first + n, s.E)
Sorted(s) == /\ \A i \in 1..(Len(s.E) - 1) : s.E[i] <= s.E[i + 1]
             /\ \A j \in 1..Len(s.subs) : \A i \in 1..(Len(s.subs[j].es) - 1) : s.subs[j].es[i] <= s.subs[j].es[i + 1]
             /\ Len(s.E) = FoldSet(LAMBDA j, acc : acc + s.subs[j].comp, 0, 1..Len(s.subs))
             /\ Len(s.E) > 0 /\ s.E[1] = 0
\* what the program reports about the step: retained / all states, without and with multiplicity
StatOK(s, d) ==
  LET keptTab == [c \in Labels(s) |-> (CHOOSE x \in ToSet(s.subs) : x.c = c).kept]
  IN s.report = <<>> \/
     s.report = <<Total(s), States(keptTab), SumOver(DOMAIN d, LAMBDA I : d[I]), States(d)>>

Structure(s, d) ==
  (IF ~StructureOK(s, d) THEN {"set of subspaces"} ELSE {}) \cup
  (IF StructureOK(s, d) /\ ~DimsOK(s, d) THEN {"subspace dimensions"} ELSE {}) \cup
  (IF StructureOK(s, d) /\ ~StatOK(s, d) THEN {"reported statistics"} ELSE {})
Rule(s) ==
  (IF ~Sorted(s) THEN {"order of the levels"} ELSE {}) \cup
  (IF ~ComputedOK(s) THEN {"number of computed states"} ELSE {}) \cup
  (IF ComputedOK(s) /\ ~OrderOK(s) THEN {"discarded state below a retained one"} ELSE {}) \cup
  (IF Sorted(s) /\ ~CountOK(s) THEN {"number of retained states"} ELSE {})
\* Run.levels: the recording includes the levels
Broken(s, d) == Structure(s, d) \cup (IF Run.levels THEN Rule(s) ELSE {})

Init == /\ r \in 1..Len(Runs) /\ n = 0 /\ why = {}
        /\ kept = [c \in {Run.seed[j].c : j \in 1..Len(Run.seed)} |->
                     FoldSet(LAMBDA j, acc : acc + Run.seed[j].n, 0, {j \in 1..Len(Run.seed) : Run.seed[j].c = c})]
Add1Site ==
  /\ why = {} /\ n < Len(Run.steps)
  /\ LET site == SiteOf(Run.first + n)
         d == Dims(kept, site)
         s == Step(n + 1)
     IN \* adding a site multiplies the number of states by the dimension of the site
        /\ Assert(States(d) = States(kept) * States(site), "completeness")
        /\ why' = Broken(s, d)
        /\ kept' = [c \in Labels(s) |-> (CHOOSE x \in ToSet(s.subs) : x.c = c).kept]
  /\ n' = n + 1 /\ UNCHANGED r
Next == Add1Site
Spec == Init /\ [][Next]_vars

Accepted == why = {} /\ n = Len(Run.steps)
Finished == why # {} \/ Accepted
Emit == Finished => JsonSerialize("verdict" \o ToString(r) \o ".json", [run |-> r, steps |-> n, why |-> SetToSeq(why)])
=============================================================================
