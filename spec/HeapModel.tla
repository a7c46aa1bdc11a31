------------------------------ MODULE HeapModel ------------------------------
(***************************************************************************)
(* Programs on at most MaxVars small larrys, as a state machine over Heap. *)
(* Model checked for the properties below, and the source of the plans     *)
(* that are replayed on real larrys (tools/tour.py).                       *)
(***************************************************************************)
EXTENDS Heap, Json
CONSTANTS MaxVars, Emit, Values, Depth
VARIABLES heap, rel, ok, steps
(* rel: pairs of variables of which one was made as a view of the other,   *)
(* directly or not; ok: the step was one that the judge of traces accepts. *)
(* With Values = 1 all cells are alike, and only who shares what matters.  *)

Slots == 1..MaxVars
Used(h) == DOMAIN h.vars
Free(h) == Slots \ Used(h)

(* Canonical names of addresses and lists: in the order of the variables   *)
RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc
                 ELSE Dedup(Tail(s), IF Head(s) \in SetOf(acc) THEN acc ELSE Append(acc, Head(s)))
RECURSIVE AdSeq(_, _)
AdSeq(h, v) == IF v > MaxVars THEN <<>>
               ELSE (IF v \in Used(h) THEN h.vars[v].ad ELSE <<>>) \o AdSeq(h, v + 1)
RECURSIVE LoSeq(_, _)
LoSeq(h, v) == IF v > MaxVars THEN <<>>
               ELSE (IF v \in Used(h) THEN <<h.vars[v].lo>> ELSE <<>>) \o LoSeq(h, v + 1)
RECURSIVE LlSeq(_, _)
LlSeq(h, los) == IF los = <<>> THEN <<>> ELSE h.outer[Head(los)] \o LlSeq(h, Tail(los))
Where(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Canon(h) ==
  LET A == Dedup(AdSeq(h, 1), <<>>)
      O == Dedup(LoSeq(h, 1), <<>>)
      L == Dedup(LlSeq(h, O), <<>>)
  IN [mem |-> [i \in 1..Len(A) |-> h.mem[A[i]]],
      lists |-> [i \in 1..Len(L) |-> h.lists[L[i]]],
      outer |-> [i \in 1..Len(O) |-> LET o == h.outer[O[i]]
                                     IN [a \in 1..Len(o) |-> Where(L, o[a])]],
      vars |-> [v \in Used(h) |->
                 [h.vars[v] EXCEPT !.ad = [i \in 1..Len(@) |-> Where(A, @[i])],
                                   !.lo = Where(O, @)]]]

(* fresh names; in a canonical heap they are numbered from 1 *)
NewAd(h, n) == [i \in 1..n |-> Cardinality(LiveAddr(h)) + i]
NewLl(h, n) == [i \in 1..n |-> Cardinality(LiveLists(h)) + i]
NewLo(h) == Cardinality(LiveOuter(h)) + 1
AsNew(h, id, c) == [id |-> id, k |-> c.k, sh |-> c.sh, dt |-> "<f8", d |-> c.d, lab |-> c.lab,
                    ad |-> NewAd(h, Len(c.d)), ll |-> NewLl(h, Len(c.sh)), lo |-> NewLo(h)]

Start1 == L4("f", <<2, 2>>, [i \in 1..4 |-> IntC(IF Values = 1 THEN 1 ELSE i)], <<<<1, 2>>, <<1, 2>>>>)
Start2 == L4("f", <<2>>, <<IntC(1), IF Values = 1 THEN IntC(1) ELSE NaN>>, <<<<2, 1>>>>)

Tok(y, v) == [y |-> y, v |-> v, lab |-> <<>>]
All == Tok("s", <<NoAxis, NoAxis, NoAxis>>)
Base(op) == [op |-> op, ax |-> 0, ix |-> <<>>, copy |-> 1, at |-> -1, tax |-> -1, c |-> NaN,
             v |-> <<>>, fm |-> <<>>, rev |-> 0, idx |-> <<>>, label |-> <<>>, upd |-> 0]
Get1(ix) == [Base("getitem") EXCEPT !.ix = ix]
Swap == <<<<1, 2>>, <<2, 1>>, <<3, 3>>>>
(* steps that make a larry, steps that change one *)
Makers == {Get1(<<Tok("i", <<0>>)>>), Get1(<<Tok("s", <<1, NoAxis, NoAxis>>)>>),
           Get1(<<Tok("s", <<NoAxis, NoAxis, -1>>)>>), Get1(<<Tok("q", <<1, 0>>)>>),
           Base("squeeze"), Base("copy"), Base("T"), [Base("sortaxis") EXCEPT !.ax = NoAxis],
           [Base("flipaxis") EXCEPT !.ax = 0],
           [Base("morph") EXCEPT !.label = IF Values = 1 THEN <<1, 2>> ELSE <<2, 3>>]}
Changers == {[Base("fill") EXCEPT !.c = IntC(IF Values = 1 THEN 1 ELSE 7)],
             [Base("tamper") EXCEPT !.at = 0, !.c = IntC(IF Values = 1 THEN 1 ELSE 9)],
             [Base("flipaxis") EXCEPT !.ax = 0, !.copy = 0],
             [Base("maplabel") EXCEPT !.ax = 0, !.copy = 0, !.fm = Swap]}
Assign(sel) == [Base("setitem") EXCEPT !.ix = <<sel>>]
Sels == {All, Tok("i", <<0>>), Tok("s", <<NoAxis, 1, NoAxis>>)}

Init == steps = 0 /\ heap = EmptyHeap /\ rel = {} /\ ok = TRUE
Related(r, v, w) == v = w \/ <<v, w>> \in r
(* tuples only: the order in which ToString prints fields is not fixed *)
Brief(h) == ToString(<<h.mem, h.lists, h.outer,
                       [v \in Slots |-> IF v \in Used(h)
                          THEN <<h.vars[v].sh, h.vars[v].ad, h.vars[v].lo>> ELSE <<>>]>>)
Edge(step, h2) == Emit => PrintT(<<"EDGE", ToJson(<<Brief(heap), step, Brief(h2)>>)>>)

NewVar(c) ==
  /\ Free(heap) # {}
  /\ LET id == Min(Free(heap))
         h2 == Canon(Enter(heap, AsNew(heap, id, c)))
     IN /\ heap' = h2 /\ rel' = rel /\ ok' = TRUE
        /\ Edge([op |-> IF Len(c.sh) = 2 THEN "new2" ELSE "new1", on |-> 0, e |-> Base("new"),
                 to |-> id, w |-> 0], h2)

Discard(v) ==
  /\ v \in Used(heap)
  /\ LET h2 == Canon(Drop(heap, {v}))
     IN /\ heap' = h2 /\ ok' = TRUE
        /\ rel' = {p \in rel : p[1] # v /\ p[2] # v}
        /\ Edge([op |-> "drop", on |-> v, e |-> Base("drop"), to |-> 0, w |-> 0], h2)

Call(e, x) == [e EXCEPT !.op = @] @@ [x |-> x]
Event(e1, outv, res, tgt, chg, refs) ==
  e1 @@ [out |-> [st |-> "ok", v |-> outv, exc |-> ""], post |-> <<>>, alias |-> 0,
         res |-> res, tgt |-> tgt, chg |-> chg, refs |-> refs, new |-> <<>>, drop |-> <<>>]
Obs(c) == [t |-> "L", k |-> c.k, sh |-> c.sh, d |-> c.d, lab |-> c.lab, arr |-> 0, dt |-> "<f8"]

Make(v, e) ==
  /\ v \in Used(heap) /\ Free(heap) # {}
  /\ LET e1 == Call(e, <<Contents(heap, v)>>)
         s == Spec(e1)
         id == Min(Free(heap))
     IN /\ s.st = "ok" /\ s.v.t = "L" /\ Len(s.v.sh) > 0
        /\ LET c == s.v
               n0 == AsNew(heap, id, c)
               src == Contents(heap, v)
               A == [src EXCEPT !.k = "i",
                       !.d = [i \in 1..Len(src.d) |-> IntC(heap.vars[v].ad[i])]]
               n == IF NeverShared(e1) THEN n0
                    ELSE [n0 EXCEPT !.ad = LET p == Spec([e1 EXCEPT !.x[1] = A]).v.d
                                           IN [i \in 1..Len(p) |-> p[i][2]],
                                    \* axes behind the first keep their list
                                    !.ll = LET o == heap.outer[heap.vars[v].lo]
                                               m == Len(o) - Len(c.sh)
                                           IN IF Len(c.sh) > 0
                                              THEN [a \in 1..Len(c.sh) |->
                                                     IF a + m > 1 /\ a + m <= Len(o)
                                                        /\ heap.lists[o[a + m]] = c.lab[a]
                                                     THEN o[a + m] ELSE @[a]] ELSE @]
               h2 == Canon(Enter(heap, n))
           IN /\ heap' = h2
              /\ ok' = LET E == Event(e1, Obs(c), <<n>>, <<>>, <<>>, <<v>>) IN StepVerdict(heap, E, E, s) = {}
              /\ rel' = IF NeverShared(e1) THEN rel
                        ELSE LET R == {w \in Used(heap) : Related(rel, v, w)}
                             IN rel \cup {<<id, w>> : w \in R} \cup {<<w, id>> : w \in R}
              /\ Edge([op |-> e.op, on |-> v, e |-> e, to |-> id, w |-> 0], h2)

(* writes through: the cells and lists of v itself get the new contents *)
Written(v, c) ==
  [id |-> v, k |-> c.k, sh |-> c.sh, dt |-> "<f8", d |-> c.d, lab |-> c.lab,
   ad |-> heap.vars[v].ad, lo |-> heap.vars[v].lo, ll |-> heap.outer[heap.vars[v].lo]]
(* flipping or mapping in place: other cells, and a new list for the axis *)
Rebound(v, c, e) ==
  LET src == Contents(heap, v)
      A == [src EXCEPT !.k = "i",
              !.d = [i \in 1..Len(src.d) |-> IntC(heap.vars[v].ad[i])]]
      p == Spec([e EXCEPT !.x[1] = A]).v.d
  IN [Written(v, c) EXCEPT !.ad = IF e.op = "flipaxis" THEN [i \in 1..Len(p) |-> p[i][2]] ELSE @,
                           !.ll[1] = NewLl(heap, 1)[1]]
Changed(h, h2) ==
  SetToSeq({[id |-> w, v |-> Contents(h2, w)] : w \in
              {z \in Used(h) : Contents(h2, z) # Contents(h, z)}})
Change(v, e, x, step) ==
  LET e1 == Call(e, x)  s == Spec(e1) IN
  /\ s.st = "ok"
  /\ LET n == IF e.op \in {"flipaxis", "maplabel"} THEN Rebound(v, s.v, e1) ELSE Written(v, s.v)
         h2 == Enter(heap, n)
     IN /\ heap' = Canon(h2)
        /\ rel' = rel
        /\ ok' = (/\ LET E == Event(e1, Obs(s.v), <<>>, <<n>>, Changed(heap, h2), <<v>>)
                     IN StepVerdict(heap, E, E, s) = {}
                  \* C13: a change shows only in the target and its views
                  /\ \A w \in Used(heap) : Contents(h2, w) # Contents(heap, w)
                                            => Related(rel, v, w))
        /\ Edge(step, Canon(h2))
Change1(v, e) == v \in Used(heap) /\ Change(v, e, <<Contents(heap, v)>>,
                   [op |-> e.op, on |-> v, e |-> e, to |-> v, w |-> 0])
Assign1(v, w, sel) ==
  /\ v \in Used(heap) /\ w \in Used(heap)
  /\ LET c == Contents(heap, w)
         e == [Assign(sel) EXCEPT !.v = [y |-> "l", k |-> "f", c |-> NoneVal, sh |-> c.sh,
                                         d |-> c.d, lab |-> c.lab]]
     IN Change(v, e, <<Contents(heap, v), c>>,
               [op |-> "assign", on |-> v, e |-> Assign(sel), to |-> v, w |-> w])

Step == \/ NewVar(Start1) \/ NewVar(Start2)
        \/ \E v \in Slots : Discard(v)
        \/ \E v \in Slots, e \in Makers : Make(v, e)
        \/ \E v \in Slots, e \in Changers : Change1(v, e)
        \/ \E v, w \in Slots, sel \in Sels : Assign1(v, w, sel)
Next == steps < Depth /\ steps' = steps + 1 /\ Step
HSpec == Init /\ [][Next]_<<heap, rel, ok, steps>>
View == <<heap, rel, ok>>

(* C01 *)
AlwaysWellFormed == \A v \in Used(heap) : WellFormed(Contents(heap, v))
(* C13: only views have anything in common *)
OnlyViewsShare == \A v, w \in Used(heap) : v = w \/ Related(rel, v, w) \/
                     (/\ AddrOf(heap, v) \cap AddrOf(heap, w) = {}
                      /\ ListsOf(heap, v) \cap ListsOf(heap, w) = {}
                      /\ heap.vars[v].lo # heap.vars[w].lo)
(* the judge of recorded programs accepts every step of the model, and   *)
(* changes stay among views                                              *)
Accepted == ok
=============================================================================
