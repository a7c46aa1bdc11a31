---------------------------- MODULE RepackModel ------------------------------
(***************************************************************************)
(* The design of repack: copy every key of the archive to a new file,      *)
(* rename the archive away, rename the copy to the name of the archive,    *)
(* remove the old file.  It can be stopped between any two steps (every    *)
(* state is checked), and any step can fail instead of taking effect; a    *)
(* write can also fail half way.                                            *)
(***************************************************************************)
EXTENDS RepackSafe, FiniteSets
CONSTANTS Keys, Junk

VARIABLES fs,      \* file name -> set of keys with their contents, or Junk
          pc, failedcopy

vars == <<fs, pc, failedcopy>>
FileNames == {"own", "new", "old"}
Init == /\ fs = [f \in {"own"} |-> Keys]
        /\ pc = "create"
        /\ failedcopy = FALSE
Set(f, v) == [g \in DOMAIN fs \cup {f} |-> IF g = f THEN v ELSE fs[g]]
Move(f, t) == [g \in (DOMAIN fs \ {f}) \cup {t} |-> IF g = t THEN fs[f] ELSE fs[g]]

Create == pc = "create" /\ fs' = Set("new", {}) /\ pc' = "copy" /\ UNCHANGED failedcopy
CopyKey(k) == /\ pc = "copy" /\ k \notin fs["new"]
              /\ fs' = Set("new", fs["new"] \cup {k})
              /\ pc' = IF fs'["new"] = Keys THEN "close" ELSE "copy"
              /\ UNCHANGED failedcopy
(* the last pages are written when the file is closed *)
Close == pc = "close" /\ pc' = "away" /\ UNCHANGED <<fs, failedcopy>>
Away == pc = "away" /\ fs' = Move("own", "old") /\ pc' = "home" /\ UNCHANGED failedcopy
Home == pc = "home" /\ fs' = Move("new", "own") /\ pc' = "remove" /\ UNCHANGED failedcopy
Remove == /\ pc = "remove"
          /\ fs' = [g \in DOMAIN fs \ {"old"} |-> fs[g]]
          /\ pc' = "done" /\ UNCHANGED failedcopy
FailCopy == /\ pc \in {"create", "copy", "close"}
            /\ pc' = "failed" /\ failedcopy' = TRUE
            /\ fs' \in {fs} \cup (IF "new" \in DOMAIN fs THEN {Set("new", Junk)} ELSE {})
FailRest == pc \in {"away", "home", "remove"} /\ pc' = "failed" /\ UNCHANGED <<fs, failedcopy>>
Next == \/ Create \/ \E k \in Keys : CopyKey(k) \/ Close \/ Away \/ Home
        \/ Remove \/ FailCopy \/ FailRest
Spec == Init /\ [][Next]_vars

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Dir == LET s == SeqOf(DOMAIN fs) IN
  [i \in 1..Len(s) |-> [own |-> IF s[i] = "own" THEN 1 ELSE 0,
                        complete |-> fs[s[i]] = Keys]]
AlwaysACopy == SomeComplete(Dir)
CopyFailureKeepsOwn == failedcopy => OwnComplete(Dir)
DoneIsClean == pc = "done" => OnlyOwn(Dir) /\ OwnComplete(Dir)
=============================================================================
