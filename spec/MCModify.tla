------------------------------ MODULE MCModify ------------------------------
(***************************************************************************)
(* A checkpointed run that is stopped and continued with other parameters,  *)
(* any number of times. Parameters: era (stands for wait cycle, factors,    *)
(* solver ...), iterations n and population p. A processed trial is tagged  *)
(* with the era that decided it; the reference set is a sequence of points  *)
(* tagged with the era that created them.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxP, MaxEra, MaxB
VARIABLES era, n, p, b, ref, mem, disk, pc, from
vars == <<era, n, p, b, ref, mem, disk, pc, from>>
Min(x, y) == IF x < y THEN x ELSE y
Tagged(k, e) == [i \in 1..k |-> e]
Init == /\ era = 1 /\ p \in 2..MaxP /\ n \in 1..p /\ b \in 1..MaxB
        /\ ref = Tagged(p, 1) /\ mem = <<>> /\ disk = [ref |-> ref, mem |-> <<>>, on |-> FALSE] /\ pc = "run" /\ from = 0
Todo == Min(n, Len(ref))
Batch == /\ pc = "run" /\ Len(mem) < Todo
         /\ mem' = mem \o Tagged(Min(b, Todo - Len(mem)), era)
         /\ UNCHANGED <<era, n, p, b, ref, disk, pc, from>>
Save == pc = "run" /\ disk' = [ref |-> ref, mem |-> mem, on |-> TRUE] /\ UNCHANGED <<era, n, p, b, ref, mem, pc, from>>
Stop == pc = "run" /\ pc' = "dead" /\ UNCHANGED <<era, n, p, b, ref, mem, disk, from>>
\* resume_with_modified_params followed by run
Modify == /\ pc = "dead" /\ disk.on /\ era < MaxEra
          /\ \E p2 \in 2..MaxP : \E n2 \in 1..p2 :
             /\ p' = p2 /\ n' = n2
             /\ ref' = disk.ref \o (IF p2 > p THEN Tagged(p2 - Len(disk.ref), era + 1) ELSE <<>>)
          /\ era' = era + 1 /\ mem' = disk.mem /\ from' = Len(disk.mem) /\ pc' = "run" /\ UNCHANGED <<b, disk>>
Next == Batch \/ Save \/ Stop \/ Modify
Spec == Init /\ [][Next]_vars
OnceEach == Len(mem) <= Len(ref)
NewParametersDecide == \A i \in (from + 1)..Len(mem) : mem[i] = era
HistoryKept == \A i \in 1..Min(from, Len(mem)) : mem[i] < era
ErasInOrder == \A i, j \in 1..Len(mem) : i < j => mem[i] <= mem[j]
RefKept == [][\A i \in 1..Len(disk.ref) : disk.on => (Len(ref') >= Len(disk.ref) /\ ref'[i] = disk.ref[i]) \/ pc # "dead"]_vars
RefTagged == \A i, j \in 1..Len(ref) : i < j => ref[i] <= ref[j]
=============================================================================
