-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging raw binary spectra: Nz files of records (frequency, weights) are *)
(* read record by record; the merged spectrum maps every frequency that     *)
(* occurs to the sum of all weights deposited there (the tools divide by    *)
(* Nz).  Frequencies are ranks in an ascending table of numbers, weights    *)
(* integers.  The state is the reading position, and the spectrum.          *)
(*                                                                         *)
(* Derived quantities: filtered spectrum, raw moments (rank = frequency in  *)
(* those cases), weight below a point (cumulative spectrum).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLES k, file, rec, spec
vars == <<k, file, rec, spec>>

C == Cases[k]
Nz == Len(C.files)
Col == C.col + 1                              \* record = <<rank, weight1, weight2>>

Init == k \in 1..Len(Cases) /\ file = 1 /\ rec = 1 /\ spec = <<>>
Deposit(s, f, w) == IF f \in DOMAIN s THEN [s EXCEPT ![f] = @ + w] ELSE s @@ (f :> w)
Read == /\ file <= Nz /\ rec <= Len(C.files[file])
        /\ LET r == C.files[file][rec] IN spec' = Deposit(spec, r[1], r[Col])
        /\ rec' = rec + 1 /\ UNCHANGED <<k, file>>
NextFile == file <= Nz /\ rec > Len(C.files[file]) /\ file' = file + 1 /\ rec' = 1 /\ UNCHANGED <<k, spec>>
Next == Read \/ NextFile
Spec == Init /\ [][Next]_vars

Sum(s) == FoldSet(LAMBDA f, a : a + s[f], 0, DOMAIN s)
\* records read so far
Seen == {<<i, j>> \in (1..Nz) \X (1..30) : (i < file /\ j <= Len(C.files[i])) \/ (i = file /\ j < rec)}
WeightConserved == Sum(spec) = FoldSet(LAMBDA p, a : a + C.files[p[1]][p[2]][Col], 0, Seen)
GridIsUnion == DOMAIN spec = {C.files[p[1]][p[2]][1] : p \in Seen}
Inv == WeightConserved /\ GridIsUnion

Sorted == LET fs == SetToSortSeq(DOMAIN spec, <) IN [i \in 1..Len(fs) |-> <<fs[i], spec[fs[i]]>>]
\* filter options of the moments tool and of the broadening tool
Abs(x) == IF x < 0 THEN -x ELSE x
Pass(f, o) == /\ Abs(f) >= o.low /\ Abs(f) <= o.high
              /\ (o.posonly => f >= o.zero) /\ (o.negonly => f < o.negzero)
Filtered(o) == [f \in DOMAIN spec |-> IF Pass(f, o) THEN spec[f] ELSE 0]
Pow(f, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN f ELSE IF n = 2 THEN f*f ELSE IF n = 3 THEN f*f*f ELSE f*f*f*f
Moment(s, n) == FoldSet(LAMBDA f, a : a + s[f] * Pow(f, n), 0, DOMAIN s)
Moments(o) == LET s == Filtered(o) IN [n \in 1..5 |-> Moment(s, n - 1)]
Done == file > Nz
Emit == Done => JsonSerialize("merged" \o ToString(k) \o ".json",
           [merged |-> Sorted, total |-> Sum(spec),
            moments |-> IF C.moments THEN [i \in 1..Len(C.filters) |-> Moments(C.filters[i])] ELSE <<>>,
            filtered |-> IF C.moments THEN [i \in 1..Len(C.filters) |-> LET s == Filtered(C.filters[i]) IN [j \in 1..Len(Sorted) |-> s[Sorted[j][1]]]] ELSE <<>>])
=============================================================================
