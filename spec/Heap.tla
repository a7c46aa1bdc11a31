-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The larrys of a program as a heap.  A larry is a reference to cells of  *)
(* memory and, through a list of lists, to lists of labels; two larrys     *)
(* may refer to the same cells or lists (views) or to none in common.      *)
(*                                                                         *)
(*   mem    address -> cell                                                *)
(*   lists  list -> labels                                                 *)
(*   outer  list of lists -> lists                                         *)
(*   vars   variable -> [k, sh, dt, ad, lo]: kind, shape, exact dtype,     *)
(*          the address of every cell in C order, its list of lists        *)
(*                                                                         *)
(* A step of a program is a call (Ops) on variables.  Its outcome is the   *)
(* one that Ops specifies for the contents of the variables; a result is   *)
(* new cells and new lists, or, for the few operations that give views,    *)
(* cells and lists of the operand; a change in place writes the cells and  *)
(* lists of its target, and so shows in exactly the variables that refer   *)
(* to them.                                                                *)
(***************************************************************************)
EXTENDS Ops

EmptyFn == [i \in {} |-> 0]
EmptyHeap == [mem |-> EmptyFn, lists |-> EmptyFn, outer |-> EmptyFn, vars |-> EmptyFn]

AddrOf(h, v) == SetOf(h.vars[v].ad)
ListsOf(h, v) == SetOf(h.outer[h.vars[v].lo])
LiveAddr(h) == UNION {AddrOf(h, v) : v \in DOMAIN h.vars}
LiveOuter(h) == {h.vars[v].lo : v \in DOMAIN h.vars}
LiveLists(h) == UNION {ListsOf(h, v) : v \in DOMAIN h.vars}

Contents(h, v) ==
  LET r == h.vars[v]  o == h.outer[r.lo]
  IN [t |-> "L", k |-> r.k, sh |-> r.sh, d |-> [i \in 1..Len(r.ad) |-> h.mem[r.ad[i]]],
      lab |-> [a \in 1..Len(o) |-> h.lists[o[a]]], arr |-> 0, dt |-> r.dt]
AllContents(h) == [v \in DOMAIN h.vars |-> Contents(h, v)]

(* f with s[i] |-> val[i] *)
Over(f, s, val) ==
  LET S == SetOf(s)
      put == [x \in S |-> val[CHOOSE i \in 1..Len(s) : s[i] = x]]
  IN put @@ f

(* Variable n.id refers to the cells n.ad and lists n.ll (list of lists     *)
(* n.lo), which get the contents n.d and n.lab.                            *)
Enter(h, n) ==
  [mem |-> Over(h.mem, n.ad, n.d),
   lists |-> Over(h.lists, n.ll, n.lab),
   outer |-> (n.lo :> n.ll) @@ h.outer,
   vars |-> (n.id :> [k |-> n.k, sh |-> n.sh, dt |-> n.dt, ad |-> n.ad, lo |-> n.lo]) @@ h.vars]

(* Variables that are not used any more, and what only they refer to.      *)
Drop(h, S) ==
  IF S = {} THEN h
  ELSE LET vars == [v \in DOMAIN h.vars \ S |-> h.vars[v]]
           h1 == [h EXCEPT !.vars = vars]
           outer == [o \in LiveOuter(h1) |-> h.outer[o]]
           h2 == [h1 EXCEPT !.outer = outer]
       IN [h2 EXCEPT !.mem = [a \in LiveAddr(h2) |-> h.mem[a]],
                     !.lists = [l \in LiveLists(h2) |-> h.lists[l]]]

(* New: nothing in common with any variable, nor twice the same.           *)
IsNew(h, n) ==
  /\ SetOf(n.ad) \cap LiveAddr(h) = {} /\ NoDup(n.ad)
  /\ SetOf(n.ll) \cap LiveLists(h) = {} /\ NoDup(n.ll)
  /\ n.lo \notin LiveOuter(h)

(* A view of variable v through operation e: each cell is the very cell    *)
(* that the operation selects, or a new one; each list is new or one of v, *)
(* but the list of lists is new: an axis can be replaced in one of them.   *)
(* The operation applied to an array of addresses tells the cells.         *)
IsView(h, e, v, n) ==
  LET c == Contents(h, v)
      A == [c EXCEPT !.k = "i", !.d = [i \in 1..Len(c.d) |-> IntC(h.vars[v].ad[i])]]
      s == Spec([e EXCEPT !.x[1] = A])
      others == (LiveAddr(h) \ AddrOf(h, v))
  IN /\ NoDup(n.ad) /\ SetOf(n.ad) \cap others = {}
     /\ s.st = "ok" /\ s.v.t = "L" =>
           \A i \in 1..Len(n.ad) : n.ad[i] \in LiveAddr(h) => IntC(n.ad[i]) = s.v.d[i]
     /\ SetOf(n.ll) \cap (LiveLists(h) \ ListsOf(h, v)) = {}
     /\ NoDup(n.ll)
     /\ n.lo \in LiveOuter(h) => n.ad = <<>> /\ n.lo = h.vars[v].lo

(* The target of a change in place afterwards: its own cells and lists, or *)
(* new ones.                                                               *)
IsRebound(h, v, n) ==
  /\ NoDup(n.ad) /\ SetOf(n.ad) \cap (LiveAddr(h) \ AddrOf(h, v)) = {}
  /\ NoDup(n.ll) /\ SetOf(n.ll) \cap (LiveLists(h) \ ListsOf(h, v)) = {}
  /\ n.lo \in LiveOuter(h) => n.lo = h.vars[v].lo

(* The contents that the target has after the change.                      *)
Becomes(e, s, o) ==
  IF e.op \in RelOps \/ s.st # "ok" \/ s.v.t # "L" THEN o ELSE s.v

-----------------------------------------------------------------------------
(* One step.  e is a recorded call:                                        *)
(*   e.new   variables that come in with it (created by other means)       *)
(*   e.drop  variables that leave before it                                *)
(*   e.x     operands: [var |-> v] or a value                              *)
(*   e.res   larrys and arrays that it returned, as for Enter              *)
(*   e.tgt   <<n>>: its first operand afterwards, for a change in place    *)
(*   e.chg   <<[id, v]>>: the variables that were found changed            *)
Resolve(h, e) == [e EXCEPT !.x = [i \in 1..Len(e.x) |->
                    IF "var" \in DOMAIN e.x[i] THEN Contents(h, e.x[i].var) ELSE e.x[i]]]
RECURSIVE EnterAll(_, _)
EnterAll(h, ns) == IF ns = <<>> THEN h ELSE EnterAll(Enter(h, Head(ns)), Tail(ns))

Before(h, e) == EnterAll(Drop(h, SetOf(e.drop)), e.new)
NoRefs(n) == [n EXCEPT !.lo = 0]

RECURSIVE ResultsOK(_, _, _)
ResultsOK(h, e, ns) ==
  IF ns = <<>> THEN TRUE
  ELSE LET n == Head(ns)
       IN /\ IsNew(h, n) \/ (/\ ~NeverShared(e) /\ Len(e.refs) > 0
                             /\ IsView(h, e, e.refs[1], n))
          /\ ResultsOK(Enter(h, n), e, Tail(ns))

(* e1: the call with the contents of its operands; s: its specification    *)
StepVerdict(h, e, e1, s) ==
  LET o == e.out
      obs == [c \in {e.chg[i].id : i \in 1..Len(e.chg)} |->
                (CHOOSE i \in 1..Len(e.chg) : e.chg[i].id = c)]
      base == VerdictWith(e1, s)
      inplace == e.tgt # <<>>
      after == IF ~inplace \/ o.st # "ok" THEN h
               ELSE LET b == Becomes(e1, s, [d |-> e.tgt[1].d, lab |-> e.tgt[1].lab])
                    IN IF Len(b.d) = Len(e.tgt[1].ad) /\ Len(b.lab) = Len(e.tgt[1].ll)
                       THEN Enter(h, [e.tgt[1] EXCEPT !.d = b.d, !.lab = b.lab]) ELSE h
      same == \A v \in DOMAIN h.vars :
                LET want == Contents(after, v)
                IN IF v \in DOMAIN obs
                   THEN LET w == e.chg[obs[v]].v
                        IN want.d = w.d /\ want.lab = w.lab /\ want.sh = w.sh /\ want.dt = w.dt
                   ELSE want = Contents(h, v)
      free == inplace /\ e.op \notin RelOps /\ s.st = "any"
  IN base
     \cup (IF same \/ free THEN {} ELSE {"mutated"})
     \* flipping or mapping labels in place is seen by nobody else: a view
     \* would keep its cells and lose its labels
     \cup (IF inplace /\ e.op \in {"flipaxis", "maplabel"} /\
              \E v \in DOMAIN obs : v # e.refs[1]
           THEN {"mutated"} ELSE {})
     \cup (IF o.st = "ok" /\ inplace /\ ~IsRebound(h, e.refs[1], e.tgt[1])
           THEN {"aliased"} ELSE {})
     \cup (IF ResultsOK(h, e1, e.res) THEN {} ELSE {"aliased"})

(* The heap after the step, from what was observed.                        *)
StepHeap(h, e) == EnterAll(EnterAll(h, e.tgt), e.res)
=============================================================================
