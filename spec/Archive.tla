------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* The archive: a dictionary from keys to larrys (C27-C31).                *)
(*                                                                         *)
(* A key is a sequence of names ("a/b" is <<"a", "b">>).  The state st of  *)
(* an archive has                                                          *)
(*   arch     the dictionary: a function from the keys to larrys           *)
(*   dt       the exact dtype of each                                       *)
(*   foreign  paths of other datasets that users put into the file         *)
(*   ever     every path that was a group once: an emptied group may stay  *)
(*            behind and be in the way later, which is not specified       *)
(* The larry under key k occupies the names "x", "0", .., "nd-1" below k;  *)
(* a save whose names are taken by something else is refused.              *)
(***************************************************************************)
EXTENDS Ops

EmptyArchive == [arch |-> <<>>, dt |-> <<>>, foreign |-> {}, ever |-> {}]
KeysOf(st) == DOMAIN st.arch

DigitName(i) == ToString(i)
Names(nd) == {"x"} \cup {DigitName(i) : i \in 0..(nd - 1)}
ProperPrefixes(k) == {SubSeq(k, 1, i) : i \in 1..(Len(k) - 1)}
AtOrBelow(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Below(st, p) == \E q \in KeysOf(st) \cup st.foreign : AtOrBelow(p, q)
DataNode(st, p) ==
  \/ p \in st.foreign
  \/ Len(p) > 1 /\ LET k == SubSeq(p, 1, Len(p) - 1) IN
       k \in KeysOf(st) /\ p[Len(p)] \in Names(ND(st.arch[k]))

(* the names below k that a save needs and that are not its own already *)
NewNames(st, k, nd) ==
  IF k \in KeysOf(st) THEN Names(nd) \ Names(ND(st.arch[k])) ELSE Names(nd)
Blocked(st, k, nd) ==
  \/ \E p \in ProperPrefixes(k) : DataNode(st, p)
  \/ DataNode(st, k)
  \/ \E n \in NewNames(st, k, nd) : Below(st, Append(k, n))
MaybeBlocked(st, k, nd) ==
  \E n \in NewNames(st, k, nd) : Append(k, n) \in st.ever
(* lt[a]: the types of the labels of axis a *)
LabelTypes == {"int", "long", "float", "str", "date", "datetime", "time", "bool"}
Storable(kind, lt) ==
  /\ kind \in {"f", "i", "u", "b", "S"}
  /\ \A a \in 1..Len(lt) : Len(lt[a]) = 0 \/ (Len(lt[a]) = 1 /\ lt[a][1] \in LabelTypes)

With(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Without(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Put(st, k, L, dt) == [st EXCEPT
  !.arch = With(@, k, L),
  !.dt = With(@, k, dt),
  !.ever = @ \cup ProperPrefixes(k) \cup {k}]
Drop(st, k) == [st EXCEPT !.arch = Without(@, k), !.dt = Without(@, k)]

-----------------------------------------------------------------------------
(* One operation: [st |-> state afterwards, out |-> specified outcome].    *)
(* may = 1: the operation may also be refused, without changing anything.  *)

Res(st, out) == [st |-> st, out |-> out, may |-> 0]
Refused(st) == Res(st, Err)
AsLarry(o) == L4(o.k, o.sh, o.d, o.lab)

SaveStep(st, e) ==
  LET k == e.key IN
  IF e.keyok = 0 \/ e.isl = 0 THEN Refused(st)
  ELSE LET L == AsLarry(e.x[1]) IN
       IF ~Storable(e.dt, e.lt) THEN Refused(st)
       ELSE IF e.over = 0 /\ k \in KeysOf(st) THEN Refused(st)
       ELSE IF Blocked(st, k, ND(L)) THEN Refused(st)
       ELSE [Res(Put(st, k, L, e.dts), OkN) EXCEPT !.may =
               IF MaybeBlocked(st, k, ND(L)) THEN 1 ELSE 0]

(* the shape, dtype, ndim, size and labels of a lara *)
MetaOf(L) == OkV(<<L4(L.k, L.sh, <<>>, L.lab),
                   VI(<<ND(L), Size(L)>>)>>)

(* An index that HDF5 may not support for writing: anything but scalars and
   slices with a positive step that select something *)
HardIndex(L, ix) ==
  \/ \E i \in 1..Len(ix) :
       \/ ix[i].y \notin {"i", "s"}
       \/ ix[i].y = "s" /\ ix[i].v[3] # NoAxis /\ ix[i].v[3] < 1
  \/ Size(Indexed(L, ix)) = 0

ArchStep(st, e) ==
  LET k == e.key
      has == k \in KeysOf(st)
  IN CASE e.op \in {"setitem", "save"} -> SaveStep(st, e)
       [] e.op \in {"del", "delete"} ->
            IF e.keyok = 0 \/ ~has THEN Refused(st) ELSE Res(Drop(st, k), OkN)
       [] e.op = "load" ->
            IF e.keyok = 0 \/ ~has THEN Refused(st) ELSE Res(st, Ok(st.arch[k]))
       [] e.op = "meta" -> IF ~has THEN Refused(st) ELSE Res(st, MetaOf(st.arch[k]))
       [] e.op = "stale" ->            \* the same from a lara made long ago
            IF ~has THEN Refused(st)
            ELSE LET L == st.arch[k] IN
                 Res(st, OkV(<<L4(L.k, L.sh, <<>>, <<>>), VI(<<ND(L), Size(L)>>)>>))
       [] e.op = "labelindex" ->
            IF ~has THEN Refused(st)
            ELSE Res(st, LabelIndex(st.arch[k], e.name, e.ax, e.exact))
       [] e.op = "getlabel" ->
            IF ~has THEN Refused(st) ELSE Res(st, GetLabel(st.arch[k], e.ax))
       [] e.op = "maxlabel" ->
            IF ~has THEN Refused(st) ELSE Res(st, MaxMinLabel(st.arch[k], e.ax, 1))
       [] e.op = "minlabel" ->
            IF ~has THEN Refused(st) ELSE Res(st, MaxMinLabel(st.arch[k], e.ax, 0))
       [] e.op = "partget" ->
            IF ~has THEN Refused(st) ELSE Res(st, GetItem(st.arch[k], e.ix))
       [] e.op = "partset" ->
            IF ~has THEN Refused(st)
            ELSE LET s == SetItem(st.arch[k], e.ix, e.v) IN
                 IF s.st = "err" THEN Refused(st)
                 ELSE IF s.st = "any" THEN Res(st, Unspecified)
                 ELSE [Res(Put(st, k, AsLarry(s.v), st.dt[k]), OkN) EXCEPT !.may =
                         IF HardIndex(st.arch[k], e.ix) THEN 1 ELSE 0]
       [] e.op = "maskset" ->
            IF ~has THEN Refused(st)
            ELSE LET s == SetMask(st.arch[k], e.x[1], e.v) IN
                 IF s.st = "err" THEN Refused(st)
                 ELSE [Res(Put(st, k, AsLarry(s.v), st.dt[k]), OkN) EXCEPT !.may = 1]
       [] e.op = "contains" -> Res(st, OkI(<<IF e.keyok = 1 /\ has THEN 1 ELSE 0>>))
       [] e.op = "big" ->
            \* a large larry saved in another file: ndim, size and shape of its
            \* lara; whether dtype, cells (how many), labels and a single cell
            \* came back
            LET size == FoldSeq(LAMBDA m, n : m * n, 1, e.dims) IN
            Res(st, OkI(<<Len(e.dims), size>> \o e.dims \o <<1, size, 1, 1>>))
       [] e.op = "len" -> Res(st, OkI(<<Cardinality(KeysOf(st))>>))
       [] e.op = "is_larry" ->
            IF has THEN Res(st, OkI(<<1>>))
            ELSE IF DataNode(st, k) \/ Below(st, k) THEN Res(st, OkI(<<0>>))
            ELSE IF k \in st.ever THEN Res(st, Unspecified) ELSE Refused(st)
       [] e.op = "clear" -> Res([st EXCEPT !.arch = <<>>, !.dt = <<>>], OkN)
       [] e.op \in {"repack", "reopen", "listing"} -> Res(st, OkN)
       [] e.op = "foreign" ->
            Res([st EXCEPT !.foreign = @ \cup {k}, !.ever = @ \cup ProperPrefixes(k)], OkN)

-----------------------------------------------------------------------------
(* What can be seen of the archive after each operation: e.obs is the list *)
(* of its keys, each with the larry that it loads; e.files the number of   *)
(* files beside the archive.                                               *)

ObsKeys(obs) == [i \in 1..Len(obs) |-> obs[i].key]
SameLarry(L, o) == /\ o.t = "L" /\ o.k = L.k /\ o.sh = L.sh /\ o.lab = L.lab
                   /\ o.d = L.d
Seen(st, obs) ==
  LET ks == ObsKeys(obs)
      bad == {i \in 1..Len(obs) : ks[i] \in KeysOf(st) /\
                    ~(SameLarry(st.arch[ks[i]], obs[i].v) /\ st.dt[ks[i]] = obs[i].dt)}
  IN (IF NoDup(ks) /\ SetOf(ks) = KeysOf(st) THEN {} ELSE {"keys"}) \cup
     (IF bad = {} THEN {} ELSE {"content"})

KeyErrorOps == {"load", "del", "delete"}
Outcome(e, r) ==
  LET o == e.out IN
  IF o.st = "hang" THEN {"hang"}
  ELSE IF e.usable = 0 THEN {"unusable"}
  ELSE CASE r.out.st = "any" -> {}
         [] r.out.st = "err" ->
              (IF o.st # "err" THEN {"should_raise"}
               ELSE IF e.op \in KeyErrorOps /\ e.keyok = 1 /\ o.exc # "KeyError"
                    THEN {"not_keyerror"} ELSE {})
         [] r.out.st = "ok" ->
              IF o.st = "err" THEN (IF r.may = 1 THEN {} ELSE {"raised"})
              ELSE IF e.op = "listing"
                   THEN \* keys, values or items by one of the interfaces
                        IF Seen(r.st, e.list) = {} THEN {} ELSE {"listing"}
              ELSE ValDiff(r.out.v, o.v)
(* the state that the operation must leave *)
After(st, e, r) ==
  IF e.out.st = "err" \/ r.out.st # "ok" THEN st ELSE r.st
ArchVerdict(st, e, r) ==
  LET want == After(st, e, r)
      o == Outcome(e, r)
      seen == IF e.usable = 0 THEN {} ELSE Seen(want, e.obs)
      left == IF e.files = 0 THEN {} ELSE {"files"}
  IN o \cup seen \cup left
=============================================================================
