------------------------------ MODULE MCTime ------------------------------
(***************************************************************************)
(* Stage 2 against a clock: batches of calls, each call takes time, the    *)
(* clock is read before each batch, the run may be cut and continued by a  *)
(* further session (which counts its own time) any number of times.        *)
(***************************************************************************)
EXTENDS TimeLimit, FiniteSets, TLC
CONSTANTS Iterations, BatchSize, MaxCall, MaxLimit, Sessions
VARIABLES clock, t0, limit, at, pc, call, found, durs, began, session, first
vars == <<clock, t0, limit, at, pc, call, found, durs, began, session, first>>
Min(a, b) == IF a < b THEN a ELSE b
Limits == {<<x>> : x \in -1..MaxLimit} \cup {<<>>}
Init == clock = 0 /\ t0 = 0 /\ limit \in Limits /\ at = 0 /\ pc = "stage1" /\ call = 0 /\ found = <<>>
        /\ durs = <<>> /\ began = <<>> /\ session = 1 /\ first = 0
\* Stage 1 and the first local search take any time and are not counted
Stage1 == pc = "stage1" /\ \E x \in 0..MaxCall : clock' = clock + x /\ t0' = clock + x
          /\ pc' = "check" /\ UNCHANGED <<limit, at, call, found, durs, began, session, first>>
Elapsed == clock - t0
Check == /\ pc = "check"
         /\ IF at >= Iterations \/ (limit # <<>> /\ Elapsed > limit[1])
            THEN pc' = "end" /\ UNCHANGED <<call, durs, began>>
            ELSE pc' = "batch" /\ call' = 0 /\ durs' = Append(durs, 0) /\ began' = Append(began, Elapsed)
         /\ UNCHANGED <<clock, t0, limit, at, found, session, first>>
Size == Min(BatchSize, Iterations - at)
Work == /\ pc = "batch" /\ call < Size
        /\ \E x \in 0..MaxCall : clock' = clock + x /\ durs' = [durs EXCEPT ![Len(durs)] = @ + x]
        /\ call' = call + 1
        /\ UNCHANGED <<t0, limit, at, pc, found, began, session, first>>
Commit == /\ pc = "batch" /\ call = Size
          /\ found' = found \o [i \in 1..Size |-> at + i] /\ at' = at + Size /\ pc' = "check"
          /\ UNCHANGED <<clock, t0, limit, call, durs, began, session, first>>
Resume == /\ pc = "end" /\ session < Sessions /\ at < Iterations
          /\ session' = session + 1 /\ limit' \in Limits /\ durs' = <<>> /\ began' = <<>> /\ first' = at
          /\ t0' = clock /\ pc' = "check" /\ UNCHANGED <<clock, at, call, found>>
Next == Stage1 \/ Check \/ Work \/ Commit \/ Resume
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
NoLateBatch == limit # <<>> => \A i \in 1..Len(began) : began[i] <= limit[1]
NotEarly == pc = "end" /\ at < Iterations => limit # <<>> /\ Elapsed > limit[1]
\* what was found is exactly what the processed trials found, as if the budget had ended here
Kept == pc \in {"check", "end"} => found = [i \in 1..at |-> i]
\* the rule recorded runs are judged by agrees with the machine
Rule == pc = "end" /\ at < Iterations => MustStop(durs, limit, Len(durs)) /\ \A j \in 0..(Len(durs) - 1) : ~MustStop(durs, limit, j)
Agree == pc = "check" => \A j \in 0..(Len(durs) - 1) : ~MustStop(durs, limit, j)
Ends == <>(pc = "end")
Unreached == limit = <<>> /\ pc = "end" => at = Iterations
=============================================================================
