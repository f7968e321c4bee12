------------------------------ MODULE Template -------------------------------
(***************************************************************************)
(* Instantiation of an input-file template: the template is read item by    *)
(* item; comments and block headers are copied, the energies of the seed    *)
(* subspaces replace the subspace definitions, matrices are replaced by     *)
(* their values in the eigenbasis, the ground state energy and the chain    *)
(* coefficients are filled in, what follows the coefficient marker is       *)
(* ignored.  Anything inconsistent makes the whole instantiation fail:      *)
(* `out` is then never written.                                             *)
(* Items: [k |-> "comment" | "scale" | "blank" | "sub" | "f" | "op" | "e" | *)
(*   "end" | "junk"], subspaces have id and dim (declared) and mdim (of the *)
(* matrix), blocks have elements <<bra, ket, rows, cols>>.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

Cases == JsonDeserialize("cases.json")     \* [items, subs (declared), wilson (blocks expected)]
VARIABLES case, i, dims, scaled, out, nf, haveE, status
vars == <<case, i, dims, scaled, out, nf, haveE, status>>

C == Cases[case]
It == C.items[i]
Init == /\ case \in 1..Len(Cases) /\ i = 1 /\ dims = <<>> /\ scaled = FALSE
        /\ out = <<>> /\ nf = 0 /\ haveE = FALSE /\ status = "reading"

Put(x) == out' = Append(out, x)
Stop(s) == status' = s /\ UNCHANGED <<out, dims, scaled, nf, haveE>>
Ids == {dims[k].id : k \in 1..Len(dims)}
DimOf(id) == (CHOOSE d \in ToSet(dims) : d.id = id).dim
SubsDone == Len(dims) = C.subs

Comment == It.k \in {"comment", "scale"}
           /\ Put([t |-> "copy", i |-> i, a |-> 0]) /\ scaled' = (scaled \/ It.k = "scale") /\ UNCHANGED <<dims, nf, haveE, status>>
Blank == It.k = "blank" /\ UNCHANGED <<out, dims, scaled, nf, haveE, status>>
Header == It.k = "header" /\ Put([t |-> "header", i |-> i, a |-> 0]) /\ UNCHANGED <<dims, scaled, nf, haveE, status>>
Sub == /\ It.k = "sub" /\ ~SubsDone
       /\ IF ~scaled \/ It.id \in Ids \/ It.dim < 1 \/ It.rows # It.dim \/ It.cols # It.dim THEN Stop("fail")
          ELSE /\ dims' = Append(dims, [id |-> It.id, dim |-> It.dim, i |-> i])
               /\ out' = IF Len(dims) + 1 < C.subs THEN out
                         ELSE out \o [k \in 1..C.subs |-> [t |-> "energies", i |-> dims'[k].i, a |-> 0]]
               /\ UNCHANGED <<scaled, nf, haveE, status>>
Good(el) == el[1] \in Ids /\ el[2] \in Ids /\ el[3] = DimOf(el[1]) /\ el[4] = DimOf(el[2])
Block == /\ It.k \in {"f", "op"} /\ SubsDone
         /\ IF (\E j \in 1..Len(It.els) : ~Good(It.els[j])) \/ (It.k = "f" /\ nf = C.wilson) THEN Stop("fail")
            ELSE /\ out' = Append(out, [t |-> "block", i |-> i, a |-> 0]) \o [j \in 1..Len(It.els) |-> [t |-> "rotated", i |-> i, a |-> j]]
                 /\ nf' = nf + (IF It.k = "f" THEN 1 ELSE 0) /\ UNCHANGED <<dims, scaled, haveE, status>>
GS == It.k = "e" /\ SubsDone /\ Put([t |-> "e", i |-> i, a |-> 0]) /\ haveE' = TRUE /\ UNCHANGED <<dims, scaled, nf, status>>
Misplaced == /\ \/ It.k = "junk" \/ (It.k = "sub" /\ SubsDone) \/ (It.k \in {"f", "op", "e", "end"} /\ ~SubsDone)
             /\ Stop("fail")
Finish == IF SubsDone /\ nf = C.wilson /\ haveE /\ C.subs > 0
          THEN status' = "done" /\ Put([t |-> "coefficients", i |-> 0, a |-> 0]) /\ UNCHANGED <<dims, scaled, nf, haveE>>
          ELSE Stop("fail")
End == It.k = "end" /\ SubsDone /\ Finish
Step == /\ status = "reading"
        /\ IF i > Len(C.items) THEN Finish /\ UNCHANGED <<case, i>>
           ELSE /\ i' = i + 1 /\ UNCHANGED case
                /\ (Comment \/ Blank \/ Header \/ Sub \/ Block \/ GS \/ End \/ Misplaced)
Spec == Init /\ [][Step]_vars

\* copied items keep their order, nothing is copied twice, every subspace gets its energies exactly once
Copied == SelectSeq(out, LAMBDA o : o.t \in {"copy", "block", "e", "header"})
Ordered == \A a, b \in 1..Len(Copied) : a < b => Copied[a].i < Copied[b].i
Energies == status = "done" => \A k \in 1..Len(C.items) :
   (C.items[k].k = "sub" /\ k < i) => Cardinality({j \in 1..Len(out) : out[j] = [t |-> "energies", i |-> k, a |-> 0]}) = 1
Complete == status = "done" => /\ out[Len(out)].t = "coefficients"
                               /\ \A k \in 1..(i - 1) : C.items[k].k \in {"comment", "scale"} => \E j \in 1..Len(out) : out[j] = [t |-> "copy", i |-> k, a |-> 0]
NoProgress == status = "reading" => ENABLED Step
Inv == Ordered /\ Energies /\ Complete /\ NoProgress
Emit == status = "reading" \/ JsonSerialize("out" \o ToString(case) \o ".json", [status |-> status, out |-> IF status = "done" THEN out ELSE <<>>])
=============================================================================
