---------------------------- MODULE ArchiveModel -----------------------------
(***************************************************************************)
(* The archive as a state machine over a few keys and values: model        *)
(* checked (the invariants below), and the source of the plans that are    *)
(* replayed against the real archive: walks that take every transition of  *)
(* the state graph (tools/tour.py makes them from the transitions that are *)
(* printed here).                                                           *)
(***************************************************************************)
EXTENDS Archive, Json
CONSTANTS Depth, Emit

KA == <<"a">>
KAB == <<"a", "b">>
KB == <<"b">>
KA1 == <<"a", "1">>
Keys == {KA, KAB, KB, KA1}
Shapes == [p |-> <<2>>, q |-> <<2, 2>>, r |-> <<1, 2, 2>>]
Zeros(n) == [i \in 1..n |-> 0]
Sample(v) == [k |-> "f", sh |-> Shapes[v], d |-> Zeros(Prod(Shapes[v])),
              lab |-> [a \in 1..Len(Shapes[v]) |-> [i \in 1..Shapes[v][a] |-> i]]]

Save(op, k, v) == [op |-> op, key |-> k, v |-> v, keyok |-> 1, isl |-> 1, over |-> IF op = "save" THEN 0 ELSE 1,
                   dt |-> "f", dts |-> v, x |-> <<Sample(v)>>,
                   lt |-> [a \in 1..Len(Shapes[v]) |-> <<"int">>]]
BadSave(k) == [Save("badsave", k, "p") EXCEPT !.lt = <<<<"int", "str">>>>]
Plain(op, k) == [op |-> op, key |-> k, v |-> "", keyok |-> 1]
AllOps == {Save(op, k, v) : op \in {"setitem", "save"}, k \in Keys, v \in {"p", "q", "r"}}
          \cup {BadSave(k) : k \in Keys}
          \cup {Plain("delete", k) : k \in Keys} \cup {Plain("load", k) : k \in Keys}
          \cup {Plain(op, <<>>) : op \in {"clear", "repack", "reopen", "listing"}}
          \cup {Plain("foreign", k) : k \in {KB, <<"a", "n">>}}

VARIABLES st, path
Brief(z) == ToString(<<[k \in KeysOf(z) |-> z.dt[k]], z.foreign, z.ever>>)
RealOp(e) == IF e.op = "badsave" THEN [e EXCEPT !.op = "setitem"] ELSE e
Key4(e) == [op |-> e.op, key |-> e.key, v |-> e.v]
(* a dataset cannot be put where something is *)
ForeignOK(e) == e.op # "foreign" \/
  (/\ ~DataNode(st, e.key) /\ e.key \notin st.ever
   /\ \A p \in ProperPrefixes(e.key) : ~DataNode(st, p)
   /\ ~(Len(e.key) = 2 /\ SubSeq(e.key, 1, 1) \in KeysOf(st)))
AInit == st = EmptyArchive /\ path = <<>>
ANext == \E e \in AllOps :
  /\ Len(path) < Depth
  /\ ForeignOK(e)
  /\ LET r == ArchStep(st, RealOp(e)) IN
     /\ r.may = 0
     /\ st' = r.st
     /\ path' = Append(path, Key4(e))
     /\ (Emit => PrintT(<<"EDGE", ToJson(<<Brief(st), Key4(e), Brief(r.st)>>)>>))
ASpec == AInit /\ [][ANext]_<<st, path>>
View == st

(* The names that a larry occupies are its own: no key, no part of another
   key and no dataset of the user is one of them *)
NoClash == \A k \in KeysOf(st) : \A n \in Names(ND(st.arch[k])) :
             ~Below(st, Append(k, n)) /\ Append(k, n) \notin st.foreign
KeysAreGroups == KeysOf(st) \subseteq st.ever /\ KeysOf(st) \cap st.foreign = {}
(* Every operation acts on at most the key that it names *)
Frame == [][\A k \in Keys :
              (path' # path /\ path'[Len(path')].op # "clear" /\ path'[Len(path')].key # k)
              => (k \in KeysOf(st) <=> k \in KeysOf(st')) /\
                 (k \in KeysOf(st) => st'.arch[k] = st.arch[k])]_<<st, path>>
=============================================================================
