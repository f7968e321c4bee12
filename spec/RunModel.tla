------------------------------- MODULE RunModel -------------------------------
(* Part 2 of RunProtocol: the program of a run, with faults at every operation and crashes at every point.  *)
EXTENDS RunProtocol, TLC
CONSTANTS N,        \* number of steps
          Outs,     \* outputs that are written throughout the run
          Lates,    \* outputs that are written at the end
          DM,       \* the run has a second sweep with density matrices
          Remove,   \* removefiles
          Faults    \* at most this many operations fail

VARIABLES todo,     \* operations still to be performed
          faults, status   \* "running", "failing", "exited", "killed"
mvars == <<vars, todo, faults, status>>

C(n) == "unitary" \o ToString(n)
R(n) == "rho" \o ToString(n)
T(p) == p \o ".tmp"
Ck == {C(n) : n \in 0..N-1} \cup {R(n) : n \in 0..N-1}
Save(p) == << <<"w", T(p), "temp">>, <<"p", T(p)>>, <<"p", T(p)>>, <<"c", T(p)>>, <<"m", T(p), p>> >>
Load(p, rm) == << <<"r", p, "ckpt">> >> \o (IF rm THEN << <<"u", p>> >> ELSE << >>)
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Begin == << <<"d">>, <<"r", "data", "input">> >> \o Flat([i \in 1..Cardinality(Outs) |-> << <<"w", SeqOf(Outs)[i], "out">> >>])
Rows == Flat([i \in 1..Cardinality(Outs) |-> << <<"p", SeqOf(Outs)[i]>> >>])
End == Flat([i \in 1..Cardinality(Outs) |-> << <<"c", SeqOf(Outs)[i]>> >>])
Late == Flat([i \in 1..Cardinality(Lates) |-> LET o == SeqOf(Lates)[i] IN << <<"w", o, "out">>, <<"p", o>>, <<"c", o>> >>])
Program == Begin \o Flat([n \in 1..N |-> (IF DM THEN Save(C(n-1)) ELSE << >>) \o Rows]) \o End
           \o (IF DM THEN Save(R(N-1)) \o Flat([k \in 1..N-1 |-> Load(C(N-k), FALSE) \o Save(R(N-k-1))])
                          \o Flat([n \in 1..N |-> Load(C(n-1), Remove) \o Load(R(n-1), Remove)])
                     ELSE << >>)
           \o Late \o << <<"w", "DONE", "done">>, <<"c", "DONE">> >>

Init == InitFS /\ todo = Program /\ faults = 0 /\ status = "running"

Do(op, ok) ==
  CASE op[1] = "d" -> Mkdtemp(ok, "wd")
    [] op[1] = "w" -> OpenW(op[2], op[3], ok)
    [] op[1] = "p" -> Write(op[2], 1, ok)
    [] op[1] = "c" -> Close(op[2])
    [] op[1] = "m" -> Rename(op[2], op[3], "ckpt", ok)
    [] op[1] = "r" -> OpenR(op[2], op[3], ok, FALSE)
    [] op[1] = "u" -> Unlink(op[2], "ckpt", ok, Remove, FALSE)

Run == /\ status = "running" /\ todo # << >>
       /\ \/ Do(Head(todo), TRUE) /\ todo' = Tail(todo) /\ UNCHANGED <<faults, status>>
          \/ /\ faults < Faults /\ Head(todo)[1] \notin {"c", "u"}
             /\ Do(Head(todo), FALSE)
             /\ faults' = faults + 1 /\ status' = "failing" /\ todo' = << >>
\* the stack is unwound: open files are closed, the private directory is removed
CloseAll == /\ status = "failing" \/ (status = "running" /\ todo = << >>)
            /\ \E p \in DOMAIN files : files[p].open /\ Close(p)
            /\ UNCHANGED <<todo, faults, status>>
Clean == /\ status = "failing" \/ (status = "running" /\ todo = << >>)
         /\ \A p \in DOMAIN files : ~files[p].open
         /\ wd = "there"
         /\ LET S == {p \in DOMAIN files : p \in Ck \cup {T(c) : c \in Ck}} IN
              IF S # {} THEN Unlink(CHOOSE p \in S : TRUE, "ckpt", TRUE, Remove, TRUE)
                        ELSE Unlink("wd", "wd", TRUE, Remove, TRUE)
         /\ UNCHANGED <<todo, faults, status>>
Exit == /\ status = "failing" \/ (status = "running" /\ todo = << >>)
        /\ wd # "there" /\ \A p \in DOMAIN files : ~files[p].open
        /\ status' = "exited" /\ UNCHANGED <<vars, todo, faults>>
Kill == status \in {"running", "failing"} /\ status' = "killed" /\ UNCHANGED <<vars, todo, faults>>
Next == Run \/ CloseAll \/ Clean \/ Exit \/ Kill
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Run \/ CloseAll \/ Clean \/ Exit)

CkAtomic == Atomic(Ck)
Terminated == status = "exited" => ExitOK(IF failed THEN 1 ELSE 0, TRUE)
Complete == (status = "exited" /\ ~failed) => \A o \in Outs \cup Lates : o \in DOMAIN files /\ files[o].len > 0 /\ ~files[o].short /\ ~files[o].open
NoneLeft == status = "exited" => (DOMAIN files \cap (Ck \cup {T(c) : c \in Ck})) = {}
Orderly == <>(status \in {"exited", "killed"})
=============================================================================
