------------------------------ MODULE MCResume ------------------------------
(***************************************************************************)
(* A checkpointed run that dies any number of times at any point: before   *)
(* Stage 2, inside a batch, between the update of the state and the save,   *)
(* while saving (the save is atomic, see AtomicSave), after the end.        *)
(* The optimiser state is the sequence of batches it went through: equal    *)
(* sequences mean equal states, because a batch is a function of state and  *)
(* trials (OQNLPCore).                                                      *)
(***************************************************************************)
EXTENDS Resume, TLC
CONSTANTS MaxN, MaxB, MaxF, MaxCrash, Cap
VARIABLES n, b, f, pc, mem, disk, seg, crashes, result
\* mem: sequence of batches [lo, hi]; disk: "none" or such a sequence; seg: trials processed since the last (re)start
vars == <<n, b, f, pc, mem, disk, seg, crashes, result>>
None == <<<<-1, -1>>>>
Count(m) == IF m = <<>> THEN 0 ELSE m[Len(m)][2]
Init == /\ n \in 1..MaxN /\ b \in 1..MaxB /\ f \in 0..MaxF
        /\ pc = "start" /\ mem = <<>> /\ disk = None /\ seg = <<>> /\ crashes = 0 /\ result = None
Start == /\ pc = "start"
         /\ mem' = (IF disk = None THEN <<>> ELSE disk) /\ seg' = <<>> /\ pc' = "loop" /\ UNCHANGED <<n, b, f, disk, crashes, result>>
Batch == /\ pc = "loop" /\ Count(mem) < n
         /\ LET c == Count(mem) c2 == After(c, n, b) IN
            /\ mem' = Append(mem, <<c, c2>>)
            /\ seg' = seg \o [i \in 1..(c2 - c) |-> c + i]
            /\ pc' = IF Due(c, c2, n, f) /\ c2 < n THEN "save" ELSE "loop"
         /\ UNCHANGED <<n, b, f, disk, crashes, result>>
Save == pc = "save" /\ disk' = mem /\ pc' = "loop" /\ UNCHANGED <<n, b, f, mem, seg, crashes, result>>
Final == pc = "loop" /\ Count(mem) = n /\ disk' = mem /\ pc' = "done" /\ UNCHANGED <<n, b, f, mem, seg, crashes, result>>
Return == pc = "done" /\ result' = mem /\ pc' = "ended" /\ UNCHANGED <<n, b, f, mem, disk, seg, crashes>>
\* death, or a restart of a finished run
Crash == /\ crashes < MaxCrash /\ pc # "start"
         /\ pc' = "start" /\ crashes' = crashes + 1 /\ mem' = <<>> /\ seg' = <<>> /\ UNCHANGED <<n, b, f, disk, result>>
Next == Start \/ Batch \/ Save \/ Final \/ Return \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ Batch \/ Save \/ Final \/ Return)

RECURSIVE Uninterrupted(_)
Uninterrupted(m) == IF Count(m) >= n THEN m ELSE Uninterrupted(Append(m, <<Count(m), After(Count(m), n, b)>>))
SameResult == result # None => result = Uninterrupted(<<>>)
\* the continuation starts right after the checkpoint: nothing repeated, nothing skipped
Exact == \A i \in 1..Len(seg) : seg[i] = seg[1] + i - 1
StartsAfterCheckpoint == seg # <<>> => seg[1] \in {0 + 1} \cup {e + 1 : e \in Saved(n, b, f)}
Progress == pc = "loop" /\ disk # None => Count(disk) >= Newest(Count(mem), n, b, f) \/ Count(mem) = n
RestartKeeps == [][result # None => result' = result]_vars
Ends0 == <>(result # None)
=============================================================================
