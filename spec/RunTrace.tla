------------------------------- MODULE RunTrace -------------------------------
(* Part 3 of RunProtocol: recorded runs.  runs.json is a list of
     [key, code, marker (requested), remove, clean (nothing was disturbed), events]
   with events [op, class, p, q, n, ok, dmg, cleaning].  A run that was killed has code -1.
   Emits the verdicts, and for undisturbed runs the checkpoints visible after every operation (the prediction for
   every possible kill). *)
EXTENDS RunProtocol, Integers, TLC, Json
Runs == JsonDeserialize("runs.json")
VARIABLES r, i, why
tvars == <<vars, r, i, why>>
Ev == Runs[r].events

TInit == InitFS /\ r \in 1..Len(Runs) /\ i = 0 /\ why = {}

Apply(e) ==
  CASE e.op = "mkdtemp" -> Mkdtemp(e.ok, e.class)
    [] e.op = "openw" -> OpenW(e.p, e.class, e.ok)
    [] e.op = "write" -> Write(e.p, e.n, e.ok)
    [] e.op = "close" -> Close(e.p)
    [] e.op = "rename" -> Rename(e.p, e.q, e.class, e.ok)
    [] e.op = "openr" -> OpenR(e.p, e.class, e.ok, e.dmg)
    [] e.op = "unlink" -> Unlink(e.p, e.class, e.ok, Runs[r].remove, e.cleaning)
    [] OTHER -> bad' = bad \cup {"operation " \o e.op} /\ UNCHANGED <<files, wd, marker, failed, kept>>

FinalNames == {Runs[r].ckpts[k] : k \in DOMAIN Runs[r].ckpts}
Broken(f, m, fl) == (IF \A p \in DOMAIN f \cap FinalNames : ~f[p].open /\ ~f[p].short THEN {} ELSE {"C11: an incomplete checkpoint is visible under its final name"})
                    \cup (IF m /\ fl THEN {"C10: completion marker although an operation failed"} ELSE {})
Step == /\ i < Len(Ev)
        /\ i' = i + 1 /\ r' = r
        /\ Apply(Ev[i+1])
        /\ why' = why \cup Broken(files', marker', failed')
              \cup (IF Ev[i+1].class = "done" /\ Runs[r].remove /\ FinalNames \cap DOMAIN files # {} THEN {"C13: checkpoints that should have been removed are still there at the end"} ELSE {})
Finish == /\ i = Len(Ev) /\ i' = i + 1 /\ r' = r /\ UNCHANGED vars
          /\ LET c == Runs[r].code IN
             why' = why \cup {"C13: " \o b : b \in bad}
               \cup (IF c = 0 /\ failed THEN {"C10: exit status 0 although an operation failed"} ELSE {})
               \cup (IF c = 0 /\ Runs[r].marker /\ ~marker THEN {"C10: exit status 0 without completion marker"} ELSE {})
               \cup (IF c # 0 /\ c # -1 /\ marker THEN {"C10: completion marker of a run that failed"} ELSE {})
               \cup (IF c # -1 /\ wd = "there" THEN {"C13: the private directory is left behind"} ELSE {})
               \cup (IF kept # {} THEN {"C13: checkpoints removed although they should be kept"} ELSE {})
Next == Step \/ Finish
Spec == TInit /\ [][Next]_tvars

Emit == (i = Len(Ev) + 1) => JsonSerialize("verdict" \o ToString(r) \o ".json", [key |-> Runs[r].key, why |-> why, failed |-> failed, marker |-> marker])
\* what a kill after operation i leaves behind
Visible == (Runs[r].predict /\ \E k \in DOMAIN Runs[r].probe : Runs[r].probe[k] = i) => JsonSerialize("seen" \o ToString(r) \o "_" \o ToString(i) \o ".json",
             [files |-> [p \in DOMAIN files |-> files[p].len], failed |-> failed])
=============================================================================
