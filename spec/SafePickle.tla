----------------------------- MODULE SafePickle -----------------------------
(* The protocol of pickle_read and pickle_write (C08, C09): a lock, a        *)
(* temporary file in the same directory, one rename. Contents are pairs      *)
(* <<value, parts>>; a value is complete with Parts parts. Processes can be  *)
(* killed anywhere; a killed holder leaves its lock, so others time out.     *)
(* Mode "inplace" is the protocol without the temporary file and "nolock"    *)
(* the one without the lock on a shared temporary file; the harness checks   *)
(* that the invariants find both out.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Writers, Readers, Parts, Mode
Procs == Writers \cup Readers
VARIABLES file, tmp, lock, pc, got, hist, alive
\* file: <<0, Parts>> is the value before; hist: committed values in order
\* (ghost); got[p]: <<content, index of hist when read began/ended>>.
vars == <<file, tmp, lock, pc, got, hist, alive>>
Init == /\ file = <<0, Parts>> /\ tmp = [p \in Writers |-> <<-1, 0>>] /\ lock = 0
        /\ pc = [p \in Procs |-> "start"] /\ got = [p \in Readers |-> <<-1, 0>>]
        /\ hist = <<0>> /\ alive = Procs
Locking == Mode /= "nolock"
Slot(p) == IF Mode = "nolock" THEN CHOOSE q \in Writers : TRUE ELSE p
Acquire(p) == /\ pc[p] = "start" /\ (Locking => lock = 0)
              /\ lock' = IF Locking THEN p ELSE lock
              /\ pc' = [pc EXCEPT ![p] = IF p \in Writers THEN "open" ELSE "read"]
              /\ UNCHANGED <<file, tmp, got, hist, alive>>
TimeOut(p) == /\ pc[p] = "start" /\ lock /= 0
              /\ pc' = [pc EXCEPT ![p] = "error"] /\ UNCHANGED <<file, tmp, lock, got, hist, alive>>
OpenTmp(p) == /\ pc[p] = "open"
              /\ IF Mode = "inplace" THEN file' = <<p, 0>> /\ UNCHANGED tmp
                 ELSE tmp' = [tmp EXCEPT ![Slot(p)] = <<p, 0>>] /\ UNCHANGED file
              /\ pc' = [pc EXCEPT ![p] = "dump"] /\ UNCHANGED <<lock, got, hist, alive>>
Dump(p) == /\ pc[p] = "dump"
           /\ LET c == IF Mode = "inplace" THEN file ELSE tmp[Slot(p)] IN
              IF c[1] = p /\ c[2] < Parts
              THEN /\ IF Mode = "inplace" THEN file' = <<p, c[2] + 1>> /\ UNCHANGED tmp
                      ELSE tmp' = [tmp EXCEPT ![Slot(p)] = <<p, c[2] + 1>>] /\ UNCHANGED file
                   /\ UNCHANGED pc
              ELSE pc' = [pc EXCEPT ![p] = "rename"] /\ UNCHANGED <<file, tmp>>
           /\ UNCHANGED <<lock, got, hist, alive>>
\* The value cannot be pickled, or the disk is full.
FailDump(p) == /\ pc[p] = "dump" /\ Mode /= "inplace"
               /\ tmp' = [tmp EXCEPT ![Slot(p)] = <<-1, 0>>]
               /\ pc' = [pc EXCEPT ![p] = "failing"] /\ UNCHANGED <<file, lock, got, hist, alive>>
Rename(p) == /\ pc[p] = "rename"
             /\ IF Mode = "inplace" THEN UNCHANGED <<file, tmp>>
                ELSE file' = tmp[Slot(p)] /\ tmp' = [tmp EXCEPT ![Slot(p)] = <<-1, 0>>]
             /\ hist' = Append(hist, p)
             /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED <<lock, got, alive>>
Read(p) == /\ pc[p] = "read"
           /\ got' = [got EXCEPT ![p] = file]
           /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED <<file, tmp, lock, hist, alive>>
Unlock(p) == /\ pc[p] \in {"unlock", "failing"}
             /\ lock' = IF Locking THEN 0 ELSE lock
             /\ pc' = [pc EXCEPT ![p] = IF pc[p] = "unlock" THEN "done" ELSE "error"]
             /\ UNCHANGED <<file, tmp, got, hist, alive>>
Crash(p) == /\ alive' = alive \ {p} /\ UNCHANGED <<file, tmp, lock, pc, got, hist>>
Next == \E p \in alive : \/ Acquire(p) \/ TimeOut(p) \/ Unlock(p) \/ Crash(p)
                         \/ p \in Writers /\ (OpenTmp(p) \/ Dump(p) \/ FailDump(p) \/ Rename(p))
                         \/ p \in Readers /\ Read(p)
Spec == Init /\ [][Next]_vars
Complete(c) == c[2] = Parts
\* C08: never a partial value, and always the last committed one.
FileComplete == Complete(file)
FileIsLastCommit == file[1] = hist[Len(hist)]
\* C09: a read returns a committed value.
ReadsCommitted == \A p \in Readers : pc[p] \in {"unlock", "done"} => Complete(got[p]) /\ got[p][1] \in {hist[j] : j \in DOMAIN hist}
OneHolder == \A p, q \in Procs : Locking /\ p /= q => ~(pc[p] \in {"open", "dump", "rename", "read", "unlock", "failing"}
                                              /\ pc[q] \in {"open", "dump", "rename", "read", "unlock", "failing"})
\* Who got no access changed nothing; who finished is in the history.
ErrorsChangeNothing == \A p \in Writers : (pc[p] = "error" => p \notin {hist[j] : j \in DOMAIN hist})
                                       /\ (pc[p] = "done" => p \in {hist[j] : j \in DOMAIN hist})
OnlyRenameCommits == [][file' /= file => hist' /= hist]_vars
=============================================================================
