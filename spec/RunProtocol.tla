------------------------------ MODULE RunProtocol ------------------------------
(* The protocol of a run with the file system.

   A run creates a private directory (mkdtemp), writes its outputs and its checkpoints, reads the checkpoints in the
   second sweep, creates the completion marker and removes the directory.  Any operation can fail and the process can
   be killed between any two operations.

   Part 1 is the file system and the operations a run performs on it.
   Part 2 is the protocol as a nondeterministic program with faults and crashes: TLC checks the four guarantees
   (C10-C13) on all of its behaviours.  Part 3 (RunTrace.tla) takes recorded runs of the engine as the sequence of
   operations and checks the same guarantees on them. *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
  files,     \* path -> [len, open, short (a write to it failed)]: the visible files below the directory of the run
  wd,        \* "none", "there", "gone": the private directory
  marker,    \* the completion marker exists
  failed,    \* some operation that the results depend on has failed
  kept,      \* checkpoints that were unlinked although they should have been kept, or the other way round
  bad        \* set of strings: rules that have been broken

vars == <<files, wd, marker, failed, kept, bad>>

(* ---------------------------------------------------------------- Part 1: operations
   class: "ckpt" (final name of a checkpoint), "temp" (any other name in the private directory), "out" (documented
   output), "done" (completion marker), "input", "other" (anything else) *)
New == [len |-> 0, open |-> TRUE, short |-> FALSE]
Put(f, p, r) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN r ELSE f[x]]
Del(f, p) == [x \in DOMAIN f \ {p} |-> f[x]]
Note(c, s) == IF c THEN {} ELSE {s}

InitFS == files = <<>> /\ wd = "none" /\ marker = FALSE /\ failed = FALSE /\ kept = {} /\ bad = {}

\* the run fails visibly: only the removal of the private directory may follow
Quiet == Note(~failed, "the run continues with its outputs after an operation failed")

Mkdtemp(ok, class) ==
  /\ wd' = IF ok THEN "there" ELSE wd
  /\ failed' = (failed \/ ~ok)
  /\ bad' = bad \cup Note(wd = "none", "second private directory") \cup Note(class = "wd", "the private directory is not below the requested location")
  /\ UNCHANGED <<files, marker, kept>>

OpenW(p, class, ok) ==
  /\ files' = IF ok THEN Put(files, p, New) ELSE files
  /\ marker' = (marker \/ (class = "done" /\ ok))
  /\ failed' = (failed \/ ~ok)
  /\ bad' = bad \cup Note(class \in {"ckpt", "temp", "out", "done"}, "a file outside the documented outputs is written")
                \cup Note(class \in {"ckpt", "temp"} => wd = "there", "a temporary file outside the life of the private directory")
                \cup Note(class = "done" => ~failed, "completion marker after a failure")
                \cup Note(class # "done" => ~marker, "an output is written after the completion marker")
  /\ UNCHANGED <<wd, kept>>

Write(p, n, ok) ==
  /\ files' = IF p \in DOMAIN files THEN Put(files, p, [files[p] EXCEPT !.len = @ + n, !.short = @ \/ ~ok]) ELSE files
  /\ failed' = (failed \/ ~ok)
  /\ bad' = bad \cup Note(~marker, "an output is written after the completion marker")
  /\ UNCHANGED <<wd, marker, kept>>

Close(p) ==
  /\ files' = IF p \in DOMAIN files THEN Put(files, p, [files[p] EXCEPT !.open = FALSE]) ELSE files
  /\ UNCHANGED <<wd, marker, failed, kept, bad>>

Rename(p, q, class, ok) ==
  /\ files' = IF ok /\ p \in DOMAIN files THEN Put(Del(files, p), q, files[p]) ELSE files
  /\ failed' = (failed \/ ~ok)
  /\ bad' = bad \cup Note(class \in {"ckpt", "temp", "out", "done"}, "a file outside the documented outputs is replaced")
  /\ UNCHANGED <<wd, marker, kept>>

\* a checkpoint is read; dmg: it was damaged or removed behind the program's back
OpenR(p, class, ok, dmg) ==
  /\ failed' = (failed \/ (class \in {"ckpt", "input"} /\ (~ok \/ dmg)))
  /\ bad' = bad \cup Note(class = "ckpt" => wd = "there", "a checkpoint is read outside the life of the private directory")
  /\ UNCHANGED <<files, wd, marker, kept>>

\* cleaning: the operation belongs to the removal of the private directory
Unlink(p, class, ok, remove, cleaning) ==
  /\ files' = IF ok THEN Del(files, p) ELSE files
  /\ wd' = IF class = "wd" /\ ok THEN "gone" ELSE wd
  /\ kept' = IF class = "ckpt" /\ ok /\ ~cleaning /\ ~remove THEN kept \cup {p} ELSE kept
  /\ bad' = bad \cup Note(class \in {"ckpt", "temp", "wd"}, "something outside the private directory is deleted")
  /\ UNCHANGED <<marker, failed>>

(* ---------------------------------------------------------------- the guarantees
   They are state predicates: the process may be killed in any state. *)

\* C11: whatever is visible under the final name of a checkpoint is complete
Atomic(ckpts) == \A p \in DOMAIN files \cap ckpts : ~files[p].open /\ ~files[p].short

\* C10 and C12: the completion marker never appears in a run in which an operation failed
MarkerOnlyIfComplete == marker => ~failed

\* C13, with C10's and C12's exit status
ExitOK(code, requestmarker) ==
  /\ code = 0 => (~failed /\ (requestmarker => marker))
  /\ failed => (code # 0 /\ ~marker)
  /\ wd # "there"
  /\ (code = 0 /\ wd = "none") => FALSE
Contained == bad = {}
AsRequested == kept = {}
=============================================================================
