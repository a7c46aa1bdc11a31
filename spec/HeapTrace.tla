------------------------------ MODULE HeapTrace ------------------------------
(***************************************************************************)
(* Checks recorded programs on larrys: every step must be one that Heap    *)
(* allows from the heap that the steps before it have led to.              *)
(***************************************************************************)
EXTENDS Heap, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES hist, pos, heap, bad

TInit == hist \in 1..Len(Histories) /\ pos = 0 /\ heap = EmptyHeap /\ bad = {}
TNext ==
  LET ev == Histories[hist].ev IN
  /\ bad = {}
  /\ pos < Len(ev)
  /\ pos' = pos + 1
  /\ hist' = hist
  /\ LET e == ev[pos']
         h == Before(heap, e)
         e1 == Resolve(h, e)
         s == SpecOf(e1)
         v == StepVerdict(h, e, e1, s)
         said == IF v # {} THEN PrintT(<<"BROKEN", hist - 1, pos, v>>) ELSE TRUE
     IN /\ bad' = IF said THEN v ELSE v
        /\ heap' = IF v # {} THEN heap ELSE StepHeap(h, e)
TSpec == TInit /\ [][TNext]_<<hist, pos, heap, bad>>
=============================================================================
