------------------------------ MODULE MCWorkers ------------------------------
(***************************************************************************)
(* A parallel batch with its real concurrency: workers take the admitted   *)
(* trials in any order, finish in any order, deliver into the slot of      *)
(* their trial; an observer looks at the state and a checkpoint writer     *)
(* copies it whenever they like between batches. Whatever the schedule,    *)
(* the state at each batch boundary is the function of the inputs that     *)
(* OQNLPCore!Batch defines (C10, C11), and observers and checkpoints do    *)
(* not influence it (C19).                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NTrials, BatchSize, Workers, TrialSet, DF, WaitC, TopVal
Abs(x) == IF x < 0 THEN -x ELSE x
MAdm(v, th) == {v <= th}
MFar(x, s) == {Abs(x.p - s.p) > DF}
MBetter(s, f) == {s.v < f.v}
MEquiv(s, f) == {s.v = f.v}
MSep(s, m) == {Abs(s.p - m.p) >= DF}
MInB(s) == TRUE
MAtTarget(s) == FALSE
MVal(s) == s.v
MRelax(th) == IF th + 1 > TopVal THEN TopVal ELSE th + 1
MTrialVal(x) == x.v
MOutcome(x) == x.o
C == INSTANCE OQNLPCore WITH Adm <- MAdm, Far <- MFar, Better <- MBetter, Equiv <- MEquiv,
       Sep <- MSep, InB <- MInB, AtTarget <- MAtTarget, Val <- MVal, Relax <- MRelax,
       TrialVal <- MTrialVal, Outcome <- MOutcome, Excl <- FALSE, Wait <- WaitC
VARIABLES xs,       \* the trials, in processing order
          st, n,    \* state and completed trials
          pure,     \* the same computed without any concurrency
          phase,    \* "filter", "search" or "done"
          todo,     \* admitted trials no worker has taken
          busy,     \* worker -> index of a trial or 0
          slot,     \* index -> delivered optimum
          started,  \* admitted indices of the batch, in order
          seen, disk  \* what the observer has seen / the checkpoint holds
vars == <<xs, st, n, pure, phase, todo, busy, slot, started, seen, disk>>
One(S) == CHOOSE q \in S : TRUE
First(o) == One(C!Process([thr |-> o.v, unch |-> 0, set |-> <<>>, dist |-> <<>>], o))
Hi == IF n + BatchSize > NTrials THEN NTrials ELSE n + BatchSize
Idx == [i \in 1..(Hi - n) |-> n + i]
Gate(i) == C!Must(C!Gate(st, xs[i]))
Init == /\ xs \in [1..NTrials -> TrialSet]
        /\ st = First([p |-> 9, v |-> 2]) /\ pure = st /\ n = 0
        /\ phase = "filter" /\ todo = {} /\ busy = [w \in Workers |-> 0]
        /\ slot = [i \in 1..NTrials |-> <<>>] /\ started = <<>> /\ seen = 0 /\ disk = <<>>
Filter == /\ phase = "filter" /\ n < NTrials
          /\ started' = SelectSeq(Idx, Gate)
          /\ todo' = C!Range(started')
          /\ phase' = "search"
          /\ UNCHANGED <<xs, st, n, pure, busy, slot, seen, disk>>
Take(w) == /\ phase = "search" /\ busy[w] = 0
           /\ \E i \in todo : busy' = [busy EXCEPT ![w] = i] /\ todo' = todo \ {i}
           /\ UNCHANGED <<xs, st, n, pure, phase, slot, started, seen, disk>>
Deliver(w) == /\ busy[w] # 0
              /\ slot' = [slot EXCEPT ![busy[w]] = <<xs[busy[w]].o>>]
              /\ busy' = [busy EXCEPT ![w] = 0]
              /\ UNCHANGED <<xs, st, n, pure, phase, todo, started, seen, disk>>
RECURSIVE Apply(_, _)
Apply(q, is) == IF is = <<>> THEN q
                ELSE Apply(One(C!Process([q EXCEPT !.thr = xs[Head(is)].v], slot[Head(is)][1])), Tail(is))
Merge == /\ phase = "search" /\ todo = {} /\ \A w \in Workers : busy[w] = 0
         /\ st' = Apply(C!RejectN(st, Len(Idx) - Len(started)), started)
         /\ pure' = LET b == [j \in 1..Len(Idx) |-> xs[Idx[j]]]
                        s == [j \in 1..Len(started) |-> xs[started[j]]]
                    IN One(C!Batch(pure, b, s))
         /\ n' = Hi /\ phase' = IF Hi = NTrials THEN "done" ELSE "filter"
         /\ started' = <<>>
         /\ UNCHANGED <<xs, todo, busy, slot, seen, disk>>
Observe == /\ phase \in {"filter", "done"} /\ seen # n + 1 /\ seen' = n + 1
           /\ UNCHANGED <<xs, st, n, pure, phase, todo, busy, slot, started, disk>>
Save == /\ phase \in {"filter", "done"} /\ disk # <<n, st>> /\ disk' = <<n, st>>
        /\ UNCHANGED <<xs, st, n, pure, phase, todo, busy, slot, started, seen>>
Next == Filter \/ Merge \/ Observe \/ Save \/ \E w \in Workers : Take(w) \/ Deliver(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Filter \/ Merge) /\ \A w \in Workers : WF_vars(Take(w)) /\ WF_vars(Deliver(w))
Confluent == phase # "search" => st = pure
\* every schedule ends with all trials processed (no lost worker)
Finishes == <>(phase = "done" /\ n = NTrials)
CheckpointIsBoundary == disk # <<>> => disk[1] % BatchSize = 0 \/ disk[1] = NTrials
=============================================================================
