------------------------------- MODULE MCSave -------------------------------
(***************************************************************************)
(* The save protocol (temporary file, write, sync, rename) with a process  *)
(* death at any point, torn and short writes, and failing calls; repeated  *)
(* saves, each restarted over whatever the previous one left behind.       *)
(* Keep = FALSE: one file name; TRUE: a name per save, the latest is read. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Size, Saves, Keep
A == INSTANCE AtomicSave
Ids == {"c1", "c2", "c3"}
IdOf(k) == <<"c1", "c2", "c3">>[k]
Sizes == [i \in Ids |-> Size]
Name(k) == IF Keep THEN <<"f1", "f2", "f3">>[k] ELSE "f"
Tmp(k) == Name(k) \o ".tmp"
VARIABLES d, k, pc, done      \* done: id of the newest save that reported success, "none" if none
vars == <<d, k, pc, done>>
Init == /\ d = [dir |-> [x \in {} |-> 0], ino |-> [x \in {} |-> 0]]
        /\ k = 1 /\ pc = "open" /\ done = "none"
Written == d.ino[d.dir[Tmp(k)]].n
Do(call) == d' = A!Apply(d, call, IdOf(k))
Open == pc = "open" /\ Do([c |-> "open", f |-> Tmp(k), how |-> "empty"]) /\ pc' = "write" /\ UNCHANGED <<k, done>>
Write == /\ pc = "write" /\ Written < Size
         /\ \E n \in 1..(Size - Written) : Do([c |-> "write", f |-> Tmp(k), n |-> n])
         /\ UNCHANGED <<k, pc, done>>
Sync == pc = "write" /\ Written = Size /\ pc' = "rename" /\ UNCHANGED <<d, k, done>>
Rename == pc = "rename" /\ Do([c |-> "rename", f |-> Tmp(k), g |-> Name(k)]) /\ pc' = "ok" /\ UNCHANGED <<k, done>>
Ok == pc = "ok" /\ done' = IdOf(k) /\ pc' = "idle" /\ UNCHANGED <<d, k>>
\* a call fails: the temporary file is removed (or that fails too) and the save reports an error
Fail == /\ pc \in {"open", "write", "rename"}
        /\ (d' = A!Apply(d, [c |-> "unlink", f |-> Tmp(k)], IdOf(k)) \/ d' = d)
        /\ pc' = "idle" /\ UNCHANGED <<k, done>>
Crash == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<d, k, done>>
Again == pc = "idle" /\ k < Saves /\ k' = k + 1 /\ pc' = "open" /\ UNCHANGED <<d, done>>
Next == Open \/ Write \/ Sync \/ Rename \/ Ok \/ Fail \/ Crash \/ Again
Spec == Init /\ [][Next]_vars

\* the name a load resolves to: the highest one present
Latest == IF ~Keep THEN A!Look(d, "f", Sizes)
          ELSE LET S == {j \in 1..Saves : Name(j) \in DOMAIN d.dir} IN
               IF S = {} THEN "none" ELSE A!Look(d, Name(CHOOSE j \in S : \A i \in S : i <= j), Sizes)
Num(id) == IF id = "none" THEN 0 ELSE CHOOSE j \in 1..3 : IdOf(j) = id
Recoverable == Latest # "damaged" /\ Num(Latest) >= Num(done) /\ Num(Latest) <= k
=============================================================================
