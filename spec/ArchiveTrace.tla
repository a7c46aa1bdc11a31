---------------------------- MODULE ArchiveTrace -----------------------------
(***************************************************************************)
(* Checks recorded histories of an archive: every step must be one that    *)
(* Archive allows from the state that the steps before it have led to.     *)
(***************************************************************************)
EXTENDS Archive, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hist, pos, st, bad

TInit == hist \in 1..Len(Histories) /\ pos = 0 /\ st = EmptyArchive /\ bad = {}
TNext ==
  LET ev == Histories[hist].ev IN
  /\ bad = {}
  /\ pos < Len(ev)
  /\ pos' = pos + 1
  /\ hist' = hist
  /\ LET e == ev[pos']
         r == ArchStep(st, e)
         v == ArchVerdict(st, e, r)
         said == IF v # {} THEN PrintT(<<"BROKEN", hist - 1, pos, v>>) ELSE TRUE
     IN /\ bad' = IF said THEN v ELSE v
        /\ st' = IF v # {} THEN st
                 ELSE After(st, e, r)
TSpec == TInit /\ [][TNext]_<<hist, pos, st, bad>>
=============================================================================
