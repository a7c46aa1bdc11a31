----------------------------- MODULE RepackSafe ------------------------------
(***************************************************************************)
(* What must be on disk when a repack stops (C31).  A directory is a       *)
(* sequence of files [own, complete]: own = 1 for the file with the name   *)
(* of the archive, complete if the file is an archive with all its larrys. *)
(***************************************************************************)
EXTENDS Naturals, Sequences

SomeComplete(files) == \E i \in 1..Len(files) : files[i].complete
OwnComplete(files) == \E i \in 1..Len(files) : files[i].own = 1 /\ files[i].complete
OnlyOwn(files) == Len(files) = 1 /\ files[1].own = 1
=============================================================================
