------------------------------ MODULE MCStore ------------------------------
(* Exhaustive model of a directory shared by several managers and foreign   *)
(* files; also the generator of operation sequences (Emit) for replay.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mgrs, Iters, Keeps, Foreign, L, Emit
S == INSTANCE CheckpointStore
VARIABLES disk, hist
vars == <<disk, hist>>
Raw == [k |-> "raw"]
Init == disk = [x \in {} |-> Raw] /\ hist = <<>>
Tag == Len(hist) + 1
Room == Len(hist) < L
DoSave(i, it) == /\ Room /\ disk' = S!Save(Mgrs[i], disk, it, Tag)
                 /\ hist' = Append(hist, [op |-> "save", m |-> i, it |-> it, tag |-> Tag])
DoClean(i, n) == /\ Room /\ disk' = S!Clean(Mgrs[i], disk, n)
                 /\ hist' = Append(hist, [op |-> "clean", m |-> i, n |-> n])
DoPut(f) == /\ Room /\ f \notin DOMAIN disk
            /\ disk' = S!Put(disk, f, Raw)
            /\ hist' = Append(hist, [op |-> "put", p |-> f])
Finish == Emit /\ ~Room /\ PrintT(ToJson([ops |-> hist])) /\ UNCHANGED vars
Next == \/ \E i \in DOMAIN Mgrs : (\E it \in Iters : DoSave(i, it)) \/ (\E n \in Keeps : DoClean(i, n))
        \/ \E f \in Foreign : DoPut(f)
        \/ Finish
Spec == Init /\ [][Next]_vars

\* ---- what a user relies on, in terms of the history alone
Saves(i) == {j \in 1..Len(hist) : hist[j].op = "save" /\ hist[j].m = i}
LoadIsRight == \A i \in DOMAIN Mgrs :
  LET sv == Saves(i) IN
  IF sv = {} THEN S!Load(Mgrs[i], disk) = S!None /\ ~S!Exists(Mgrs[i], disk)
  ELSE LET top == IF Mgrs[i].keep THEN {j \in sv : \A k \in sv : hist[k].it <= hist[j].it} ELSE sv
           j == S!Max(top)
       IN /\ S!Exists(Mgrs[i], disk)
          /\ S!Load(Mgrs[i], disk) = [k |-> "ck", tag |-> hist[j].tag, it |-> hist[j].it]
ForeignIntact == \A j \in 1..Len(hist) : hist[j].op = "put" => hist[j].p \in DOMAIN disk /\ disk[hist[j].p] = Raw
\* an operation of one manager never changes what another one finds
Independent == [][\A i \in DOMAIN Mgrs :
   (Len(hist') > Len(hist) /\ (hist'[Len(hist')].op = "put" \/ hist'[Len(hist')].m # i))
     => S!Own(Mgrs[i], disk') = S!Own(Mgrs[i], disk) /\ S!Load(Mgrs[i], disk') = S!Load(Mgrs[i], disk)]_vars
CleanKeepsNewest == [][\A i \in DOMAIN Mgrs :
   LET e == hist'[Len(hist')] IN
   (Len(hist') > Len(hist) /\ e.op = "clean" /\ e.m = i /\ Mgrs[i].keep /\ e.n > 0) =>
     LET old == S!Own(Mgrs[i], disk) new == S!Own(Mgrs[i], disk') IN
     /\ new \subseteq old
     /\ Cardinality(new) = IF Cardinality(old) < e.n THEN Cardinality(old) ELSE e.n
     /\ \A a \in new, b \in old \ new : a > b]_vars
=============================================================================
