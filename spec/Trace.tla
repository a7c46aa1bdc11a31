------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks calls recorded from the real code against the specification.     *)
(* The trace is a file of independent calls; NC chains of states walk      *)
(* through it, so that TLC's workers share the work.  Every call moves its *)
(* chain one step and is judged on the way; a call that the specification  *)
(* does not allow is reported with the clauses that it breaks.             *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
NC == 64
VARIABLES chain, pos, bad

TInit == chain \in 1..MinI(NC, Len(Events)) /\ pos = chain - NC /\ bad = {}
Judge(e) ==
  LET s == SpecOf(e)
      v == VerdictWith(e, s)
      said == IF v # {} THEN PrintT(<<"BROKEN", e.id, v>>)
              ELSE IF Vacuous(e, s) THEN PrintT(<<"VACUOUS", e.id>>) ELSE TRUE
  IN IF said THEN v ELSE v
TNext == /\ pos + NC <= Len(Events)
         /\ pos' = pos + NC
         /\ chain' = chain
         /\ bad' = Judge(Events[pos'])
TSpec == TInit /\ [][TNext]_<<chain, pos, bad>>
=============================================================================
