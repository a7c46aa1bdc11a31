---------------------------- MODULE RepackTrace ------------------------------
(***************************************************************************)
(* Judges recorded repacks that were interrupted or made to fail.  e.want  *)
(* is what the archive held before; e.files what is on disk afterwards.    *)
(* kind: none (not interrupted), crash (the process stopped), interrupt    *)
(* and raise (an exception at some line), before and after (a copying call *)
(* failed), full (no room to write).                                        *)
(***************************************************************************)
EXTENDS Archive, RepackSafe, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
NC == 16
VARIABLES chain, pos, bad

AsArchive(obs) ==
  LET at(k) == obs[CHOOSE i \in 1..Len(obs) : obs[i].key = k] IN
  [EmptyArchive EXCEPT
     !.arch = [k \in SetOf(ObsKeys(obs)) |-> AsLarry(at(k).v)],
     !.dt = [k \in SetOf(ObsKeys(obs)) |-> at(k).dt]]
RepackVerdict(e) ==
  LET w == AsArchive(e.want)
      dir == [i \in 1..Len(e.files) |->
                [own |-> e.files[i].own,
                 complete |-> e.files[i].readable = 1 /\ Seen(w, e.files[i].obs) = {}]]
      copying == e.kind \in {"before", "after"} \/ (e.kind = "full" /\ e.raised = 1)
  IN (IF SomeComplete(dir) THEN {} ELSE {"no_complete_copy"}) \cup
     (IF copying /\ ~OwnComplete(dir) THEN {"archive_lost"} ELSE {}) \cup
     (IF e.finished = 1 /\ e.raised = 0 /\ ~OwnComplete(dir) THEN {"not_kept"} ELSE {}) \cup
     (IF e.kind = "none" THEN
         (IF e.finished = 0 \/ e.raised = 1 THEN {"raised"} ELSE {}) \cup
         (IF OnlyOwn(dir) THEN {} ELSE {"extra_file"})
      ELSE {}) \cup
     (IF e.finished = 1 /\ e.kind \in {"none", "before", "after", "full"}
         /\ (e.hasagain = 0 \/ Seen(w, e.again) # {})
      THEN {"unusable"} ELSE {})

TInit == chain \in 1..MinI(NC, Len(Events)) /\ pos = chain - NC /\ bad = {}
TNext == /\ pos + NC <= Len(Events)
         /\ pos' = pos + NC
         /\ chain' = chain
         /\ LET v == RepackVerdict(Events[pos'])
                said == IF v # {} THEN PrintT(<<"BROKEN", Events[pos'].id, v>>) ELSE TRUE
            IN bad' = IF said THEN v ELSE v
TSpec == TInit /\ [][TNext]_<<chain, pos, bad>>
=============================================================================
